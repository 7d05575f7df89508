// instantiation of the serializer for arbitrary (opaque) element types and an arbitrary byte stream: declared only,
// the contracts of the opaque parts are assumed, everything between them is the real code
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/utils/serialization/Serializer.h>
#include <maf/utils/serialization/VariantSerializer.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#define OPAQUE(N)                        \
  struct N {                             \
    int v;                               \
    N();                                 \
    N(const N &);                        \
    N(N &&);                             \
    N &operator=(const N &);             \
    N &operator=(N &&);                  \
    ~N();                                \
    bool operator<(const N &) const;     \
    bool operator==(const N &) const;    \
  };                                     \
  template <class OS> void _serialize(OS &, const N &); \
  template <class IS> bool _deserialize(IS &, N &);      \
  maf::srz::SizeType _serializedSize(const N &);
OPAQUE(Opaque)
OPAQUE(OpaqueB)
OPAQUE(OpaqueC)
struct OpHash { size_t operator()(const Opaque &) const; };
struct GOS { void write(const char *, size_t); };
struct GIS { void read(char *, size_t); bool fail() const; };
enum class En : uint16_t {};
struct Tup {
  Opaque a; OpaqueB b; OpaqueC c;
  MC_MAF_GENERATE_AS_TUPLE_METHOD(a, b, c)
};
struct DerStr : std::string { using std::string::string; };
struct Agg3 { Opaque a; OpaqueB b; OpaqueC c; };

using MapElem = std::pair<const Opaque, OpaqueB>;
using MapDElem = std::pair<Opaque, OpaqueB>;

#define SER(...)                                                                 \
  template maf::srz::SizeType maf::srz::serializedSize<__VA_ARGS__>(__VA_ARGS__ const &); \
  template void maf::srz::serialize<GOS, __VA_ARGS__>(GOS &, __VA_ARGS__ const &); \
  template bool maf::srz::deserialize<GIS, __VA_ARGS__>(GIS &, __VA_ARGS__ &);
SER(bool)
SER(char)
SER(int8_t)
SER(uint8_t)
SER(int16_t)
SER(uint16_t)
SER(int32_t)
SER(uint32_t)
SER(int64_t)
SER(uint64_t)
SER(float)
SER(double)
SER(En)
SER(std::string)
SER(std::u16string)
SER(std::u32string)
SER(std::wstring)
SER(DerStr)
SER(std::pair<Opaque, OpaqueB>)
SER(std::tuple<Opaque, OpaqueB, OpaqueC>)
SER(std::vector<Opaque>)
SER(std::list<Opaque>)
SER(std::deque<Opaque>)
SER(std::set<Opaque>)
template void maf::srz::serialize<GOS, MapElem>(GOS &, MapElem const &);
template maf::srz::SizeType maf::srz::serializedSize<MapElem>(MapElem const &);
SER(std::unordered_map<Opaque, OpaqueB, OpHash>)
SER(std::unordered_set<Opaque, OpHash>)
SER(std::map<Opaque, OpaqueB>)
SER(Opaque *)
SER(std::shared_ptr<Opaque>)
SER(std::unique_ptr<Opaque>)
SER(Tup)
SER(Agg3)
using Var3 = std::variant<Opaque, OpaqueB, OpaqueC>;
template void maf::srz::serialize<GOS, Var3>(GOS &, Var3 const &);
template bool maf::srz::deserialize<GIS, Var3>(GIS &, Var3 &);

// a variant of the largest size supported
OPAQUE(Alt3)
OPAQUE(Alt4)
OPAQUE(Alt5)
OPAQUE(Alt6)
OPAQUE(Alt7)
OPAQUE(Alt8)
OPAQUE(Alt9)
OPAQUE(Alt10)
OPAQUE(Alt11)
OPAQUE(Alt12)
OPAQUE(Alt13)
OPAQUE(Alt14)
OPAQUE(Alt15)
OPAQUE(Alt16)
OPAQUE(Alt17)
OPAQUE(Alt18)
OPAQUE(Alt19)
using Var20 = std::variant<Opaque, OpaqueB, OpaqueC, Alt3, Alt4, Alt5, Alt6, Alt7, Alt8, Alt9, Alt10, Alt11, Alt12, Alt13, Alt14, Alt15, Alt16, Alt17, Alt18, Alt19>;
template void maf::srz::serialize<GOS, Var20>(GOS &, Var20 const &);
template bool maf::srz::deserialize<GIS, Var20>(GIS &, Var20 &);

// flat records of every arity the contracts are instantiated for (three kinds of members, rotating)
struct Rec1 { Opaque m0; };
SER(Rec1)
struct Rec2 { Opaque m0; OpaqueB m1; };
SER(Rec2)
struct Rec4 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; };
SER(Rec4)
struct Rec5 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; };
SER(Rec5)
struct Rec6 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; };
SER(Rec6)
struct Rec7 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; Opaque m6; };
SER(Rec7)
struct Rec8 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; Opaque m6; OpaqueB m7; };
SER(Rec8)
struct Rec9 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; Opaque m6; OpaqueB m7; OpaqueC m8; };
SER(Rec9)
struct Rec10 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; Opaque m6; OpaqueB m7; OpaqueC m8; Opaque m9; };
SER(Rec10)
struct Rec20 { Opaque m0; OpaqueB m1; OpaqueC m2; Opaque m3; OpaqueB m4; OpaqueC m5; Opaque m6; OpaqueB m7; OpaqueC m8; Opaque m9; OpaqueB m10; OpaqueC m11; Opaque m12; OpaqueB m13; OpaqueC m14; Opaque m15; OpaqueB m16; OpaqueC m17; Opaque m18; OpaqueB m19; };
SER(Rec20)

// byte streams: the functions under contract are the members called here
void use_streams(maf::srz::OByteStream &o, maf::srz::IByteStream &i, maf::srz::IByteStreamView &v, char *b, size_t n) {
  o.write(b, n);
  o.reset();
  i.reset();
  i.read(b, n);
  v.read(b, n);
  maf::srz::IByteStream copy(i);
  maf::srz::IByteStream moved(std::move(copy));
  maf::srz::IByteStream fresh(std::move(o.bytes()));
  maf::srz::IByteStreamView view(i);
  i.fail();
  o.fail();
}
void use_fresh(maf::srz::IByteStream *at, std::string &bytes) { new (at) maf::srz::IByteStream(std::move(bytes)); }

// writing and reading several values in one call, and one by one through the stream wrappers
void batch_write(GOS &o, const Opaque &a, const OpaqueB &b, const OpaqueC &c) { maf::srz::serializeBatch(o, a, b, c); }
bool batch_read(GIS &i, Opaque &a, OpaqueB &b, OpaqueC &c) { return maf::srz::deserializeBatch(i, a, b, c); }
void batch_write_wrapped(GOS &o, const Opaque &a, const OpaqueB &b, const OpaqueC &c) {
  maf::srz::SR<GOS> sr(o);
  sr.serializeBatch(a, b, c);
}
void batch_read_wrapped(GIS &i, Opaque &a, OpaqueB &b, OpaqueC &c) {
  maf::srz::DSR<GIS> sr(i);
  sr.deserializeBatch(a, b, c);
}
void chain_write(GOS &o, const Opaque &a, const OpaqueB &b, const OpaqueC &c) {
  maf::srz::SR<GOS> sr(o);
  sr << a << b << c;
}
void chain_read(GIS &i, Opaque &a, OpaqueB &b, OpaqueC &c) {
  maf::srz::DSR<GIS> sr(i);
  sr >> a >> b >> c;
}
