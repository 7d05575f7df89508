// real-code runs for the serializer: random values of many types, round trip, announced size, every truncation,
// decoding into a used target, several values in one buffer
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/serialization/Serializer.h>
#include <maf/utils/serialization/VariantSerializer.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "dvrun.h"
using namespace maf::srz;
enum class En : uint16_t { A = 1, B = 513 };
struct Plain { int a; std::string b; std::vector<uint8_t> c; bool operator==(const Plain &o) const { return a == o.a && b == o.b && c == o.c; } };
struct Five { uint8_t a; uint64_t b; std::string c; En d; std::vector<int> e; bool operator==(const Five &o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e; } };
struct Seven { int a, b, c, d; std::string e, f; bool g; bool operator==(const Seven &o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e && f == o.f && g == o.g; } };
struct Tup {
  int x = 0; std::string y; std::map<int, std::string> z;
  MC_MAF_GENERATE_AS_TUPLE_METHOD(x, y, z)
  bool operator==(const Tup &o) const { return x == o.x && y == o.y && z == o.z; }
};
struct Custom { int v = 0; bool operator==(const Custom &o) const { return v == o.v; } };
template <class OS> void _serialize(OS &os, const Custom &c) { serialize(os, c.v); }
template <class IS> bool _deserialize(IS &is, Custom &c) { return deserialize(is, c.v); }
maf::srz::SizeType _serializedSize(const Custom &) { return 4; }

static std::mt19937 g;
template <class T, class = void> struct Gen;
template <class T> struct Gen<T, std::enable_if_t<std::is_arithmetic_v<T>>> { static T make() { return std::is_same_v<T, bool> ? T(g() & 1) : std::is_floating_point_v<T> ? T(int(g()) / 3.0) : g() % 5 == 0 ? T(0) : g() % 5 == 1 ? T(-1) : T((uint64_t(g()) << 32) | g()); } };
template <> struct Gen<En> { static En make() { return En(g()); } };
template <> struct Gen<std::string> { static std::string make() { std::string s; for (int n = g() % 4 ? g() % 6 : g() % 300; n > 0; --n) s += char(g()); return s; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make() { auto a = Gen<A>::make(); return {a, Gen<B>::make()}; } };
template <class... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make() { return {Gen<A>::make()...}; } };
template <class T> struct GenC { static T make() { T c; for (int n = g() % 5; n > 0; --n) { if constexpr (maf::nstl::is_back_insertible_v<T>) c.push_back(Gen<typename T::value_type>::make()); else c.insert(Gen<typename DecayPair<typename T::value_type>::type>::make()); } return c; }
  template <class U> struct DecayPair { using type = std::decay_t<U>; };
  template <class X, class Y> struct DecayPair<std::pair<X, Y>> { using type = std::pair<std::decay_t<X>, std::decay_t<Y>>; }; };
template <class E> struct Gen<std::vector<E>> : GenC<std::vector<E>> {};
template <class E> struct Gen<std::list<E>> : GenC<std::list<E>> {};
template <class E> struct Gen<std::deque<E>> : GenC<std::deque<E>> {};
template <class E> struct Gen<std::set<E>> : GenC<std::set<E>> {};
template <class K, class V> struct Gen<std::map<K, V>> : GenC<std::map<K, V>> {};
template <class K, class V> struct Gen<std::unordered_map<K, V>> : GenC<std::unordered_map<K, V>> {};
template <class K> struct Gen<std::unordered_set<K>> : GenC<std::unordered_set<K>> {};
template <class E> struct Gen<std::shared_ptr<E>> { static std::shared_ptr<E> make() { return g() % 3 ? std::make_shared<E>(Gen<E>::make()) : nullptr; } };
template <class E> struct Gen<std::unique_ptr<E>> { static std::unique_ptr<E> make() { return g() % 3 ? std::make_unique<E>(Gen<E>::make()) : nullptr; } };
template <class E> struct Gen<E *> { static E *make() { return g() % 3 ? new E(Gen<E>::make()) : nullptr; } };
template <class... A> struct Gen<std::variant<A...>> { static std::variant<A...> make() { std::variant<A...> r; size_t i = g() % sizeof...(A), k = 0; ((k++ == i ? (void)(r = Gen<A>::make()) : (void)0), ...); return r; } };
template <> struct Gen<std::u16string> { static std::u16string make() { std::u16string s; for (int n = g() % 9; n > 0; --n) s += char16_t(g()); return s; } };
template <> struct Gen<std::wstring> { static std::wstring make() { std::wstring s; for (int n = g() % 9; n > 0; --n) s += wchar_t(g() % 70000); return s; } };
template <> struct Gen<Plain> { static Plain make() { return {Gen<int>::make(), Gen<std::string>::make(), Gen<std::vector<uint8_t>>::make()}; } };
template <> struct Gen<Five> { static Five make() { return {Gen<uint8_t>::make(), Gen<uint64_t>::make(), Gen<std::string>::make(), Gen<En>::make(), Gen<std::vector<int>>::make()}; } };
template <> struct Gen<Seven> { static Seven make() { return {int(g()), int(g()), int(g()), int(g()), Gen<std::string>::make(), Gen<std::string>::make(), bool(g() & 1)}; } };
template <> struct Gen<Tup> { static Tup make() { Tup t; t.x = g(); t.y = Gen<std::string>::make(); t.z = Gen<std::map<int, std::string>>::make(); return t; } };
template <> struct Gen<Custom> { static Custom make() { return {int(g())}; } };

template <class T> bool same(const T &a, const T &b) { return a == b; }
template <class E> bool same(const std::shared_ptr<E> &a, const std::shared_ptr<E> &b) { return !a == !b && (!a || *a == *b); }
template <class E> bool same(const std::unique_ptr<E> &a, const std::unique_ptr<E> &b) { return !a == !b && (!a || *a == *b); }
template <class E> bool same(E *const &a, E *const &b) { return !a == !b && (!a || *a == *b); }
template <class E> bool same(const std::vector<std::shared_ptr<E>> &a, const std::vector<std::shared_ptr<E>> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <class T> struct is_var : std::false_type {};
template <class... A> struct is_var<std::variant<A...>> : std::true_type {};
template <class T> static bool contains_var() { return is_var<T>::value; }
static void fresh_target(void *) {}
template <class T> T target(bool used) { if constexpr (std::is_pointer_v<T>) return nullptr; else { T t{}; if (used) t = Gen<T>::make(); return t; } }

template <class T> int roundtrip(const char *) {
  for (int it = 0; it < 120; ++it) {
    T v = Gen<T>::make(), w = Gen<T>::make();
    OByteStream os;
    serialize(os, v);
    size_t n1 = os.bytes().size();
    if constexpr (!is_var<T>::value) CHECK(serializedSize(v) == n1);
    serialize(os, w);
    serialize(os, uint32_t(0xfeedbeef));
    IByteStream is(os.bytes());
    T a = target<T>(it & 1), b = target<T>(it & 2);
    CHECK(deserialize(is, a));
    CHECK(same(a, v));
    CHECK(is.readingPos() == n1);
    CHECK(deserialize(is, b));
    CHECK(same(b, w));
    uint32_t mark = 0;
    CHECK(deserialize(is, mark) && mark == 0xfeedbeef);
    CHECK(is.eof() && !is.fail());
    { IByteStream again(os.bytes()); T c = target<T>(false); DSR<IByteStream> ds(again); try { ds >> c; } catch (...) { CHECK(!"valid input rejected"); } CHECK(same(c, v)); 
      IByteStream cont(again); CHECK(cont.readingPos() == again.readingPos()); T d = target<T>(false); CHECK(deserialize(cont, d) && same(d, w)); }
  }
  return 0;
}
template <class T> int truncated(const char *) {
  for (int it = 0; it < 60; ++it) {
    T v = Gen<T>::make();
    OByteStream os;
    serialize(os, v);
    size_t n = os.bytes().size();
    for (size_t k = 0; k < n; k += (n > 400 ? 1 + g() % 29 : 1)) {
      IByteStream is(os.bytes().substr(0, k));
      T a = target<T>(it & 1);
      bool ok = deserialize(is, a);
      CHECK(!ok);
      CHECK(is.fail());
      if constexpr (std::is_pointer_v<T>) CHECK(a == nullptr);
      uint8_t more = 77;
      CHECK(!deserialize(is, more));         // a failed stream stays failed
      auto ex = std::make_unique<char[]>(k);  // exact-size copy: reads past the end are caught
      memcpy(ex.get(), os.bytes().data(), k);
      IByteStream js(std::string(ex.get(), k));
      IByteStreamView vw(js);
      T b = target<T>(false);
      CHECK(!deserialize(vw, b));
      bool threw = false;
      IByteStream ks(os.bytes().substr(0, k));
      DSR<IByteStream> ds(ks);
      try { T c = target<T>(false); ds >> c; } catch (const std::exception &) { threw = true; }
      CHECK(threw);
    }
  }
  return 0;
}
static int rawread() {
  for (int it = 0; it < 2000; ++it) {
    std::string bytes = Gen<std::string>::make();
    IByteStream is(bytes);
    size_t pos = 0;
    bool failed = false;
    for (int k = 0; k < 20; ++k) {
      size_t n = g() % 3 == 0 ? bytes.size() - pos : g() % 12;
      auto b = std::make_unique<char[]>(n + 1);
      memset(b.get(), 0x5a, n + 1);
      is.read(b.get(), n);
      if (!failed && pos + n <= bytes.size()) { CHECK(!memcmp(b.get(), bytes.data() + pos, n)); pos += n; CHECK(!is.fail()); }
      else { failed = true; CHECK(is.fail()); for (size_t i = 0; i < n; ++i) CHECK(b[i] == 0x5a); }
      CHECK(is.readingPos() == pos);
    }
  }
  return 0;
}
static int rawwrite() {
  for (int it = 0; it < 500; ++it) {
    OByteStream os;
    std::string m;
    for (int k = 0; k < 12; ++k) { auto s = Gen<std::string>::make(); if (g() % 4 == 0) os.prepareNextWrite(0); os.write(s.data(), s.size()); m += s; CHECK(os.bytes() == m && os.good()); }
    os.reset();
    CHECK(os.bytes().empty());
    os.write("abc", 3);
    CHECK(os.bytes() == "abc");
  }
  return 0;
}
static int badvariant() {
  using V = std::variant<int, std::string, Plain>;
  for (uint32_t ix : {3u, 4u, 19u, 20u, 21u, 255u, 256u, 0x80000000u, 0xffffffffu}) {
    OByteStream os;
    serialize(os, ix);
    serialize(os, std::string("x"));
    serialize(os, std::string("x"));
    IByteStream is(os.bytes());
    V v;
    CHECK(!deserialize(is, v));
  }
  return 0;
}
static int batch() {
  for (int it = 0; it < 300; ++it) {
    auto a = Gen<std::string>::make();
    auto b = Gen<std::vector<int>>::make();
    auto c = Gen<uint16_t>::make();
    OByteStream os;
    if (it % 3 == 0) { serializeBatch(os, a, b, c); }
    else if (it % 3 == 1) { SR<OByteStream> sr(os); sr.serializeBatch(a, b, c); }
    else { SR<OByteStream> sr(os); sr << a << b << c; }
    OByteStream ref;
    serialize(ref, a); serialize(ref, b); serialize(ref, c);
    CHECK(os.bytes() == ref.bytes());
    size_t all = os.bytes().size();
    for (int how = 0; how < 3; ++how)
      for (int cut = 0; cut < 2; ++cut) {
        IByteStream is(os.bytes().substr(0, cut ? g() % all : all));
        std::string a2 = "old"; std::vector<int> b2{1}; uint16_t c2 = 9;
        bool ok = true;
        try {
          if (how == 0) ok = deserializeBatch(is, a2, b2, c2);
          else { DSR<IByteStream> r(is); if (how == 1) r.deserializeBatch(a2, b2, c2); else r >> a2 >> b2 >> c2; }
        } catch (const std::runtime_error &) { ok = false; }
        CHECK(ok == !cut);
        if (ok) CHECK(a2 == a && b2 == b && c2 == c && is.readingPos() == all);
      }
  }
  return 0;
}
#define TY(...) { std::string nm = "round trip of " #__VA_ARGS__; g.seed(1); dvr::scenario(nm.c_str(), [] { return roundtrip<__VA_ARGS__>(""); }); \
                  nm = "truncated input of " #__VA_ARGS__; g.seed(2); dvr::scenario(nm.c_str(), [] { return truncated<__VA_ARGS__>(""); }); }
int main() {
  TY(bool) TY(char) TY(int8_t) TY(uint8_t) TY(int16_t) TY(uint16_t) TY(int32_t) TY(uint32_t) TY(int64_t) TY(uint64_t) TY(float) TY(double) TY(En)
  TY(std::string) TY(std::pair<int, std::string>) TY(std::pair<std::string, std::string>) TY(std::tuple<int, std::string, uint8_t>) TY(std::tuple<std::string, int, std::string, std::string>)
  TY(std::u16string) TY(std::wstring) TY(std::vector<std::u16string>) TY(std::unordered_set<std::string>)
  TY(std::vector<int>) TY(std::vector<uint8_t>) TY(std::vector<std::string>) TY(std::list<std::string>) TY(std::deque<int>) TY(std::vector<std::vector<std::string>>)
  TY(std::set<std::string>) TY(std::map<int, std::string>) TY(std::map<std::string, std::vector<int>>) TY(std::unordered_map<int, std::string>)
  TY(std::shared_ptr<std::string>) TY(std::unique_ptr<std::string>) TY(std::string *) TY(std::vector<std::shared_ptr<std::string>>)
  TY(Plain) TY(Five) TY(Seven) TY(Tup) TY(Custom) TY(std::vector<Plain>) TY(std::map<std::string, Plain>) TY(std::vector<Custom>)
  TY(std::variant<int, std::string, Plain>) TY(std::variant<std::string, std::vector<int>>)
  g.seed(3);
  dvr::scenario("reads of an input stream", rawread);
  dvr::scenario("writes of an output stream", rawwrite);
  dvr::scenario("several values in one call", batch);
  dvr::scenario("unknown variant alternative", badvariant);
  return SCHED_MAIN_RESULT();
}
