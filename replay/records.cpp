// Records (E01): contract records and plain aggregates of every size up to 24, of numbers; single records with strings.
#include "dvrun.h"
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/cppextension/TupleDiff.h>
#include <map>
#include <memory>
#include <cstring>
using Json = std::map<std::string, std::string>;
#include <maf/utils/serialization/JsonTrait.h>
namespace maf::srz {
template <> struct JsonTrait<Json> : JsonTraitBase<Json> {
  template <class T> static bool has(const Json &j, const char *n) { return j.count(n); }
  template <class T> static T get(const Json &j, const char *n) {
    auto i = j.find(n);
    if (i == j.end()) return T{};
    if constexpr (std::is_same_v<T, std::string>) return i->second; else return (T)std::stoul(i->second);
  }
  static Json parse(const std::string &s) { Json j; size_t p = 0; while (p < s.size()) { auto e = s.find('=', p), c = s.find(';', e); j[s.substr(p, e - p)] = s.substr(e + 1, c - e - 1); p = c + 1; } return j; }
};
}
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
OBJECT(R1) MEMBERS((unsigned, f0)) ENDOBJECT(R1)
struct A1 { unsigned f0; };
OBJECT(R2) MEMBERS((unsigned, f0), (unsigned, f1)) ENDOBJECT(R2)
struct A2 { unsigned f0, f1; };
OBJECT(R3) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2)) ENDOBJECT(R3)
struct A3 { unsigned f0, f1, f2; };
OBJECT(R4) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3)) ENDOBJECT(R4)
struct A4 { unsigned f0, f1, f2, f3; };
OBJECT(R5) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4)) ENDOBJECT(R5)
struct A5 { unsigned f0, f1, f2, f3, f4; };
OBJECT(R6) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5)) ENDOBJECT(R6)
struct A6 { unsigned f0, f1, f2, f3, f4, f5; };
OBJECT(R7) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6)) ENDOBJECT(R7)
struct A7 { unsigned f0, f1, f2, f3, f4, f5, f6; };
OBJECT(R8) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7)) ENDOBJECT(R8)
struct A8 { unsigned f0, f1, f2, f3, f4, f5, f6, f7; };
OBJECT(R9) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8)) ENDOBJECT(R9)
struct A9 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8; };
OBJECT(R10) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9)) ENDOBJECT(R10)
struct A10 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9; };
OBJECT(R11) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10)) ENDOBJECT(R11)
struct A11 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10; };
OBJECT(R12) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11)) ENDOBJECT(R12)
struct A12 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11; };
OBJECT(R13) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12)) ENDOBJECT(R13)
struct A13 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12; };
OBJECT(R14) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13)) ENDOBJECT(R14)
struct A14 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13; };
OBJECT(R15) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14)) ENDOBJECT(R15)
struct A15 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14; };
OBJECT(R16) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15)) ENDOBJECT(R16)
struct A16 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15; };
OBJECT(R17) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16)) ENDOBJECT(R17)
struct A17 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16; };
OBJECT(R18) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17)) ENDOBJECT(R18)
struct A18 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17; };
OBJECT(R19) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18)) ENDOBJECT(R19)
struct A19 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18; };
OBJECT(R20) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19)) ENDOBJECT(R20)
struct A20 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19; };
OBJECT(R21) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20)) ENDOBJECT(R21)
struct A21 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20; };
OBJECT(R22) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21)) ENDOBJECT(R22)
struct A22 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21; };
OBJECT(R23) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22)) ENDOBJECT(R23)
struct A23 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22; };
OBJECT(R24) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23)) ENDOBJECT(R24)
struct A24 { unsigned f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23; };
OBJECT(RS) MEMBERS((std::string, name), (unsigned, kind, 7), (std::string, text, "none"), (unsigned, last)) ENDOBJECT(RS)
SERVICE(lamp)
REQUEST(on)
INPUT((std::string, who), (unsigned, level, 3))
OUTPUT((std::string, who))
ERROR((unsigned, code))
ENDREQUEST(on)
REQUEST(off)
INPUT((std::string, who))
ENDREQUEST(off)
PROPERTY(on)
STATUS((unsigned, level))
ENDPROPERTY(on)
SIGNAL(on)
ATTRIBUTES((unsigned, level))
ENDSIGNAL(on)
ENDSERVICE(lamp)
struct Inner { unsigned a, b; };
struct Outer { unsigned a; Inner in; unsigned z; };
namespace {
template <class T> unsigned *mem(T &r) { return reinterpret_cast<unsigned *>(&r); }
template <class T> const unsigned *mem(const T &r) { return reinterpret_cast<const unsigned *>(&r); }
template <class T, size_t... I> T make(std::index_sequence<I...>) { return T(unsigned(I + 1)...); }
template <class T, size_t... I> void all(T &r, std::index_sequence<I...>) { r.set_all(unsigned(I + 101)...); }
int lex(const unsigned *a, const unsigned *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
template <class F> int pairs(size_t n, F f) {       // equal; different in one place; different in two places, in opposite directions
  std::vector<unsigned> a(n), b(n);
  for (size_t i = 0; i < n; ++i) a[i] = b[i] = 10 + i;
  if (f(a, b)) return 1;
  for (size_t i = 0; i < n; ++i) {
    auto c = b;
    for (int d : {-1, 1}) {
      c[i] = b[i] + d;
      if (f(a, c)) return 1;
      for (size_t k = i + 1; k < n; ++k) { auto e = c; e[k] -= d; if (f(a, e)) return 1; }
    }
  }
  return 0;
}
template <class T> int agg(size_t n) {
  using namespace maf::nstl;
  CHECK(sizeof(T) == n * sizeof(unsigned));
  T r{};
  const T &c = r;
  size_t i = 0;
  bool ok = true;
  std::apply([&](auto &... x) { ((ok = ok && &x == mem(r) + i++), ...); }, tuple_view(r));
  CHECK(ok && i == n);
  i = 0;
  std::apply([&](auto &... x) { ((ok = ok && &x == mem(c) + i++), ...); }, tuple_view(c));
  CHECK(ok && i == n);
  i = 0;
  std::apply([&](auto &... x) { ((ok = ok && &x == mem(r) + i++), ...); }, flaten(r));
  CHECK(ok && i == n);
  i = 0;
  for_each_field(r, [&](auto &x) { ok = ok && &x == mem(r) + i++; });
  CHECK(ok && i == n);
  CHECK(!pairs(n, [&](auto &a, auto &b) {
    T x, y;
    memcpy(&x, a.data(), sizeof x), memcpy(&y, b.data(), sizeof y);
    int l = lex(a.data(), b.data(), n);
    return !((x == y) == (l == 0) && (x != y) == (l != 0) && (x < y) == (l < 0) && (x > y) == (l > 0) && (x <= y) == (l <= 0) && (x >= y) == (l >= 0));
  }));
  return 0;
}
template <class T, size_t N> int rec() {
  auto seq = std::make_index_sequence<N>();
  CHECK(sizeof(T) == N * sizeof(unsigned));
  T r = make<T>(seq);
  const T &c = r;
  for (size_t i = 0; i < N; ++i) CHECK(mem(c)[i] == i + 1);
  all(r, seq);
  for (size_t i = 0; i < N; ++i) CHECK(mem(c)[i] == i + 101);
  if constexpr (N > 1) {
    T s = make<T>(std::make_index_sequence<N - 1>());
    for (size_t i = 0; i < N; ++i) CHECK(mem(s)[i] == (i < N - 1 ? i + 1 : 0));
    all(r, std::make_index_sequence<N - 1>());
    for (size_t i = 0; i < N; ++i) CHECK(mem(c)[i] == (i < N - 1 ? i + 101 : 0));
  }
  size_t i = 0;
  bool ok = true;
  std::apply([&](auto &... x) { ((ok = ok && &x == mem(r) + i++), ...); }, r.as_tuple());
  CHECK(ok && i == N);
  i = 0;
  std::apply([&](auto &... x) { ((ok = ok && &x == mem(c) + i++), ...); }, c.cas_tuple());
  CHECK(ok && i == N);
  CHECK(!pairs(N, [&](auto &a, auto &b) {
    T x{}, y{};
    memcpy((void *)&x, a.data(), sizeof x), memcpy((void *)&y, b.data(), sizeof y);
    int l = lex(a.data(), b.data(), N);
    return !((x == y) == (l == 0) && (x != y) == (l != 0) && (x < y) == (l < 0));
  }));
  for (size_t k = 0; k <= N; ++k) {                  // from JSON: nothing, one member each
    T x = make<T>(seq);
    Json j;
    if (k < N) j["f" + std::to_string(k)] = std::to_string(500 + k);
    x.load_from_json(j);
    for (size_t i = 0; i < N; ++i) CHECK(mem(x)[i] == (i == k ? 500 + k : i + 1));
  }
  return 0;
}
#define ACC(i) { auto x = make<R24>(std::make_index_sequence<24>()); const auto &c = x; unsigned v = 77; \
  x.set_f##i(v); CHECK(c.get_f##i() == 77 && &c.get_f##i() == mem(c) + i && &x.get_f##i() == mem(x) + i); x.set_f##i(78u); \
  for (size_t k = 0; k < 24; ++k) CHECK(mem(c)[k] == (k == i ? 78 : k + 1)); }
int members() {
  ACC(0)
  ACC(1)
  ACC(2)
  ACC(3)
  ACC(4)
  ACC(5)
  ACC(6)
  ACC(7)
  ACC(8)
  ACC(9)
  ACC(10)
  ACC(11)
  ACC(12)
  ACC(13)
  ACC(14)
  ACC(15)
  ACC(16)
  ACC(17)
  ACC(18)
  ACC(19)
  ACC(20)
  ACC(21)
  ACC(22)
  ACC(23)
  return 0;
}
int strings() {
  RS e, a("x"), b("x", 1u), c("x", 1u, "y"), d("x", 1u, "y", 2u);
  CHECK(e.get_name().empty() && e.get_kind() == 7 && e.get_text() == "none");
  CHECK(a.get_name() == "x" && a.get_kind() == 7 && a.get_text() == "none" && a.get_last() == 0);
  CHECK(b.get_kind() == 1 && b.get_text() == "none" && c.get_text() == "y" && c.get_last() == 0 && d.get_last() == 2);
  CHECK(a != b && b != c && c != d && d == RS("x", 1u, "y", 2u));
  std::string s = "a rather long string that does not fit into the object itself";
  d.set_text(s);
  CHECK(s.size() > 20 && d.get_text() == s && d.get_name() == "x" && d.get_last() == 2);
  RS f = d, g = std::move(f);
  CHECK(g == d && !(g < d) && !(d < g));
  d.set_name("b"), g.set_name("c"), d.set_last(5);
  CHECK(d < g && !(g < d));
  RS h("x", 1u, "y", 2u);
  h.load_from_json_str<Json>("kind=33;last=44;other=5;");
  CHECK(h == RS("x", 33u, "y", 44u));
  h.load_from_json(Json{{"name", "n"}, {"text", ""}});
  CHECK(h == RS("n", 33u, "", 44u));
  return 0;
}
int contracts() {
  using namespace lamp_service;
  auto i = on_request::make_input("me", 9u);
  CHECK(i->get_who() == "me" && i->get_level() == 9 && on_request::make_input("me")->get_level() == 3 && on_request::make_output("o")->get_who() == "o");
  std::string a = on_request::operationID(), b = off_request::operationID(), c = on_property::operationID(), d = on_signal::operationID();
  CHECK(a != b && a != c && a != d && b != c && b != d && c != d);
  CHECK(a == on_request::input::operationID() && a == on_request::output::operationID() && a == on_request::error::operationID());
  CHECK(b == off_request::input::operationID() && c == on_property::status::operationID() && d == on_signal::attributes::operationID());
  CHECK(*i == on_request::input("me", 9u) && *i != on_request::input("me", 8u) && *i != on_request::input("you", 9u));
  return 0;
}
int others() {
  using namespace maf::nstl;
  Outer a{1, {2, 3}, 4}, b{1, {2, 4}, 0};
  CHECK(a < b && a != b && b > a && a <= b && !(a == b) && !(a >= b) && a == (Outer{1, {2, 3}, 4}));
  std::tuple<int, std::string, int> x{1, "a", 3}, y{1, "b", 3};
  CHECK(maf::util::tuple_diff(x, y).to_ulong() == 2 && maf::util::tuple_diff(x, x).none());
  std::get<0>(y) = 5, std::get<2>(y) = 0;
  CHECK(maf::util::tuple_diff(x, y).all());
  return 0;
}
}
int main() {
  using namespace dvr;
  scenario("record of 1", rec<R1, 1>);
  scenario("aggregate of 1", [] { return agg<A1>(1); });
  scenario("record of 2", rec<R2, 2>);
  scenario("aggregate of 2", [] { return agg<A2>(2); });
  scenario("record of 3", rec<R3, 3>);
  scenario("aggregate of 3", [] { return agg<A3>(3); });
  scenario("record of 4", rec<R4, 4>);
  scenario("aggregate of 4", [] { return agg<A4>(4); });
  scenario("record of 5", rec<R5, 5>);
  scenario("aggregate of 5", [] { return agg<A5>(5); });
  scenario("record of 6", rec<R6, 6>);
  scenario("aggregate of 6", [] { return agg<A6>(6); });
  scenario("record of 7", rec<R7, 7>);
  scenario("aggregate of 7", [] { return agg<A7>(7); });
  scenario("record of 8", rec<R8, 8>);
  scenario("aggregate of 8", [] { return agg<A8>(8); });
  scenario("record of 9", rec<R9, 9>);
  scenario("aggregate of 9", [] { return agg<A9>(9); });
  scenario("record of 10", rec<R10, 10>);
  scenario("aggregate of 10", [] { return agg<A10>(10); });
  scenario("record of 11", rec<R11, 11>);
  scenario("aggregate of 11", [] { return agg<A11>(11); });
  scenario("record of 12", rec<R12, 12>);
  scenario("aggregate of 12", [] { return agg<A12>(12); });
  scenario("record of 13", rec<R13, 13>);
  scenario("aggregate of 13", [] { return agg<A13>(13); });
  scenario("record of 14", rec<R14, 14>);
  scenario("aggregate of 14", [] { return agg<A14>(14); });
  scenario("record of 15", rec<R15, 15>);
  scenario("aggregate of 15", [] { return agg<A15>(15); });
  scenario("record of 16", rec<R16, 16>);
  scenario("aggregate of 16", [] { return agg<A16>(16); });
  scenario("record of 17", rec<R17, 17>);
  scenario("aggregate of 17", [] { return agg<A17>(17); });
  scenario("record of 18", rec<R18, 18>);
  scenario("aggregate of 18", [] { return agg<A18>(18); });
  scenario("record of 19", rec<R19, 19>);
  scenario("aggregate of 19", [] { return agg<A19>(19); });
  scenario("record of 20", rec<R20, 20>);
  scenario("aggregate of 20", [] { return agg<A20>(20); });
  scenario("record of 21", rec<R21, 21>);
  scenario("aggregate of 21", [] { return agg<A21>(21); });
  scenario("record of 22", rec<R22, 22>);
  scenario("aggregate of 22", [] { return agg<A22>(22); });
  scenario("record of 23", rec<R23, 23>);
  scenario("aggregate of 23", [] { return agg<A23>(23); });
  scenario("record of 24", rec<R24, 24>);
  scenario("aggregate of 24", [] { return agg<A24>(24); });
  scenario("members", members);
  scenario("strings", strings);
  scenario("service contract", contracts);
  scenario("others", others);
  return SCHED_MAIN_RESULT();
}
