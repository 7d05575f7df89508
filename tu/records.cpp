// Records made with OBJECT/MEMBERS and with service contracts: the functions under contract are the ones called here.
// (generated once; opaque field types are only declared: their contracts are assumed, everything between them is the real code)
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
#include <memory>
#include <string>
#include <tuple>
#include <new>
#define OPAQUE(N)                        \
  struct N {                             \
    int v;                               \
    N();                                 \
    N(const N &);                        \
    N(N &&);                             \
    N &operator=(const N &);             \
    N &operator=(N &&);                  \
    ~N();                                \
    bool operator<(const N &) const;     \
    bool operator==(const N &) const;    \
    bool operator!=(const N &) const;    \
  };
OPAQUE(Opaque)
OPAQUE(OpaqueB)
OPAQUE(OpaqueC)
struct J { int j; };
namespace maf::srz {
template <> struct JsonTrait<J> : JsonTraitBase<J> {
  template <class T> static bool has(const J &, const char *);
  template <class T> static T get(const J &, const char *);
  static const J &parse(const std::string &);
};
}
OBJECT(R1) MEMBERS((Opaque, f0)) ENDOBJECT(R1)
OBJECT(R2) MEMBERS((Opaque, f0), (OpaqueB, f1)) ENDOBJECT(R2)
OBJECT(R3) MEMBERS((Opaque, f0), (OpaqueB, f1), (Opaque, f2)) ENDOBJECT(R3)
OBJECT(R4) MEMBERS((Opaque, f0), (OpaqueB, f1), (OpaqueC, f2), (Opaque, f3)) ENDOBJECT(R4)
OBJECT(RD) MEMBERS((unsigned, f0, 7), (Opaque, f1), (unsigned, f2, 9u), (unsigned, f3)) ENDOBJECT(RD)
OBJECT(R5) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4)) ENDOBJECT(R5)
OBJECT(R6) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5)) ENDOBJECT(R6)
OBJECT(R7) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6)) ENDOBJECT(R7)
OBJECT(R8) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7)) ENDOBJECT(R8)
OBJECT(R9) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8)) ENDOBJECT(R9)
OBJECT(R10) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9)) ENDOBJECT(R10)
OBJECT(R11) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10)) ENDOBJECT(R11)
OBJECT(R12) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11)) ENDOBJECT(R12)
OBJECT(R13) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12)) ENDOBJECT(R13)
OBJECT(R14) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13)) ENDOBJECT(R14)
OBJECT(R15) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14)) ENDOBJECT(R15)
OBJECT(R16) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15)) ENDOBJECT(R16)
OBJECT(R17) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16)) ENDOBJECT(R17)
OBJECT(R18) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17)) ENDOBJECT(R18)
OBJECT(R19) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18)) ENDOBJECT(R19)
OBJECT(R20) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19)) ENDOBJECT(R20)
OBJECT(R21) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20)) ENDOBJECT(R21)
OBJECT(R22) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21)) ENDOBJECT(R22)
OBJECT(R23) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22)) ENDOBJECT(R23)
OBJECT(R24) MEMBERS((unsigned, f0), (unsigned, f1), (unsigned, f2), (unsigned, f3), (unsigned, f4), (unsigned, f5), (unsigned, f6), (unsigned, f7), (unsigned, f8), (unsigned, f9), (unsigned, f10), (unsigned, f11), (unsigned, f12), (unsigned, f13), (unsigned, f14), (unsigned, f15), (unsigned, f16), (unsigned, f17), (unsigned, f18), (unsigned, f19), (unsigned, f20), (unsigned, f21), (unsigned, f22), (unsigned, f23)) ENDOBJECT(R24)
SERVICE(lamp)
REQUEST(switch_on)
INPUT((Opaque, f0), (OpaqueB, f1))
OUTPUT((Opaque, f0))
ERROR((Opaque, f0), (Opaque, f1))
ENDREQUEST(switch_on)
REQUEST(switch_off)
INPUT((Opaque, f0))
OUTPUT((OpaqueB, f0))
ENDREQUEST(switch_off)
VOID_REQUEST(reset)
PROPERTY(brightness)
STATUS((Opaque, f0), (unsigned, f1, 5))
ENDPROPERTY(brightness)
PROPERTY(switch_on)
STATUS((Opaque, f0))
ENDPROPERTY(switch_on)
SIGNAL(blown)
ATTRIBUTES((Opaque, f0), (OpaqueB, f1))
ENDSIGNAL(blown)
SIGNAL(switch_on)
ENDSIGNAL(switch_on)
VOID_SIGNAL(dimmed)
ENDSERVICE(lamp)
using C1 = lamp_service::switch_on_request::input;
using C2 = lamp_service::switch_on_request::output;
using C3 = lamp_service::switch_on_request::error;
using C4 = lamp_service::brightness_property::status;
using C5 = lamp_service::blown_signal::attributes;
extern "C" {
void new0_R1(R1 *at) { new (at) R1(); }
void new1_R1(R1 *at, Opaque &a0) { new (at) R1(a0); }
void all0_R1(R1 &r) { r.set_all(); }
void all1_R1(R1 &r, Opaque &a0) { r.set_all(a0); }
bool eq_R1(const R1 &a, const R1 &b) { return a == b; }
bool ne_R1(const R1 &a, const R1 &b) { return a != b; }
bool lt_R1(const R1 &a, const R1 &b) { return a < b; }
void tie_R1(R1 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); }
void ctie_R1(const R1 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); }
void setc0_R1(R1 &r, const Opaque &v) { r.set_f0(v); }
void setm0_R1(R1 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_R1(R1 &r) { return &r.get_f0(); }
const Opaque *cget0_R1(const R1 &r) { return &r.get_f0(); }
void json_R1(R1 &r, const J &j) { r.load_from_json(j); }
void jstr_R1(R1 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_R1(R1 *at, const R1 &o) { new (at) R1(o); }
void move_R1(R1 *at, R1 &o) { new (at) R1(std::move(o)); }
void asg_R1(R1 &a, const R1 &o) { a = o; }
void new0_R2(R2 *at) { new (at) R2(); }
void new1_R2(R2 *at, Opaque &a0) { new (at) R2(a0); }
void new2_R2(R2 *at, Opaque &a0, OpaqueB &a1) { new (at) R2(a0, a1); }
void all0_R2(R2 &r) { r.set_all(); }
void all1_R2(R2 &r, Opaque &a0) { r.set_all(a0); }
void all2_R2(R2 &r, Opaque &a0, OpaqueB &a1) { r.set_all(a0, a1); }
bool eq_R2(const R2 &a, const R2 &b) { return a == b; }
bool ne_R2(const R2 &a, const R2 &b) { return a != b; }
bool lt_R2(const R2 &a, const R2 &b) { return a < b; }
void tie_R2(R2 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void ctie_R2(const R2 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void setc0_R2(R2 &r, const Opaque &v) { r.set_f0(v); }
void setm0_R2(R2 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_R2(R2 &r) { return &r.get_f0(); }
const Opaque *cget0_R2(const R2 &r) { return &r.get_f0(); }
void setc1_R2(R2 &r, const OpaqueB &v) { r.set_f1(v); }
void setm1_R2(R2 &r, OpaqueB &v) { r.set_f1(std::move(v)); }
OpaqueB *get1_R2(R2 &r) { return &r.get_f1(); }
const OpaqueB *cget1_R2(const R2 &r) { return &r.get_f1(); }
void json_R2(R2 &r, const J &j) { r.load_from_json(j); }
void jstr_R2(R2 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_R2(R2 *at, const R2 &o) { new (at) R2(o); }
void move_R2(R2 *at, R2 &o) { new (at) R2(std::move(o)); }
void asg_R2(R2 &a, const R2 &o) { a = o; }
void new0_R3(R3 *at) { new (at) R3(); }
void new1_R3(R3 *at, Opaque &a0) { new (at) R3(a0); }
void new2_R3(R3 *at, Opaque &a0, OpaqueB &a1) { new (at) R3(a0, a1); }
void new3_R3(R3 *at, Opaque &a0, OpaqueB &a1, Opaque &a2) { new (at) R3(a0, a1, a2); }
void all0_R3(R3 &r) { r.set_all(); }
void all1_R3(R3 &r, Opaque &a0) { r.set_all(a0); }
void all2_R3(R3 &r, Opaque &a0, OpaqueB &a1) { r.set_all(a0, a1); }
void all3_R3(R3 &r, Opaque &a0, OpaqueB &a1, Opaque &a2) { r.set_all(a0, a1, a2); }
bool eq_R3(const R3 &a, const R3 &b) { return a == b; }
bool ne_R3(const R3 &a, const R3 &b) { return a != b; }
bool lt_R3(const R3 &a, const R3 &b) { return a < b; }
void tie_R3(R3 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); }
void ctie_R3(const R3 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); }
void setc0_R3(R3 &r, const Opaque &v) { r.set_f0(v); }
void setm0_R3(R3 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_R3(R3 &r) { return &r.get_f0(); }
const Opaque *cget0_R3(const R3 &r) { return &r.get_f0(); }
void setc1_R3(R3 &r, const OpaqueB &v) { r.set_f1(v); }
void setm1_R3(R3 &r, OpaqueB &v) { r.set_f1(std::move(v)); }
OpaqueB *get1_R3(R3 &r) { return &r.get_f1(); }
const OpaqueB *cget1_R3(const R3 &r) { return &r.get_f1(); }
void setc2_R3(R3 &r, const Opaque &v) { r.set_f2(v); }
void setm2_R3(R3 &r, Opaque &v) { r.set_f2(std::move(v)); }
Opaque *get2_R3(R3 &r) { return &r.get_f2(); }
const Opaque *cget2_R3(const R3 &r) { return &r.get_f2(); }
void json_R3(R3 &r, const J &j) { r.load_from_json(j); }
void jstr_R3(R3 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_R3(R3 *at, const R3 &o) { new (at) R3(o); }
void move_R3(R3 *at, R3 &o) { new (at) R3(std::move(o)); }
void asg_R3(R3 &a, const R3 &o) { a = o; }
void new0_R4(R4 *at) { new (at) R4(); }
void new1_R4(R4 *at, Opaque &a0) { new (at) R4(a0); }
void new2_R4(R4 *at, Opaque &a0, OpaqueB &a1) { new (at) R4(a0, a1); }
void new3_R4(R4 *at, Opaque &a0, OpaqueB &a1, OpaqueC &a2) { new (at) R4(a0, a1, a2); }
void new4_R4(R4 *at, Opaque &a0, OpaqueB &a1, OpaqueC &a2, Opaque &a3) { new (at) R4(a0, a1, a2, a3); }
void all0_R4(R4 &r) { r.set_all(); }
void all1_R4(R4 &r, Opaque &a0) { r.set_all(a0); }
void all2_R4(R4 &r, Opaque &a0, OpaqueB &a1) { r.set_all(a0, a1); }
void all3_R4(R4 &r, Opaque &a0, OpaqueB &a1, OpaqueC &a2) { r.set_all(a0, a1, a2); }
void all4_R4(R4 &r, Opaque &a0, OpaqueB &a1, OpaqueC &a2, Opaque &a3) { r.set_all(a0, a1, a2, a3); }
bool eq_R4(const R4 &a, const R4 &b) { return a == b; }
bool ne_R4(const R4 &a, const R4 &b) { return a != b; }
bool lt_R4(const R4 &a, const R4 &b) { return a < b; }
void tie_R4(R4 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); }
void ctie_R4(const R4 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); }
void setc0_R4(R4 &r, const Opaque &v) { r.set_f0(v); }
void setm0_R4(R4 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_R4(R4 &r) { return &r.get_f0(); }
const Opaque *cget0_R4(const R4 &r) { return &r.get_f0(); }
void setc1_R4(R4 &r, const OpaqueB &v) { r.set_f1(v); }
void setm1_R4(R4 &r, OpaqueB &v) { r.set_f1(std::move(v)); }
OpaqueB *get1_R4(R4 &r) { return &r.get_f1(); }
const OpaqueB *cget1_R4(const R4 &r) { return &r.get_f1(); }
void setc2_R4(R4 &r, const OpaqueC &v) { r.set_f2(v); }
void setm2_R4(R4 &r, OpaqueC &v) { r.set_f2(std::move(v)); }
OpaqueC *get2_R4(R4 &r) { return &r.get_f2(); }
const OpaqueC *cget2_R4(const R4 &r) { return &r.get_f2(); }
void setc3_R4(R4 &r, const Opaque &v) { r.set_f3(v); }
void setm3_R4(R4 &r, Opaque &v) { r.set_f3(std::move(v)); }
Opaque *get3_R4(R4 &r) { return &r.get_f3(); }
const Opaque *cget3_R4(const R4 &r) { return &r.get_f3(); }
void json_R4(R4 &r, const J &j) { r.load_from_json(j); }
void jstr_R4(R4 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_R4(R4 *at, const R4 &o) { new (at) R4(o); }
void move_R4(R4 *at, R4 &o) { new (at) R4(std::move(o)); }
void asg_R4(R4 &a, const R4 &o) { a = o; }
void new0_RD(RD *at) { new (at) RD(); }
void new1_RD(RD *at, unsigned &a0) { new (at) RD(a0); }
void new2_RD(RD *at, unsigned &a0, Opaque &a1) { new (at) RD(a0, a1); }
void new3_RD(RD *at, unsigned &a0, Opaque &a1, unsigned &a2) { new (at) RD(a0, a1, a2); }
void new4_RD(RD *at, unsigned &a0, Opaque &a1, unsigned &a2, unsigned &a3) { new (at) RD(a0, a1, a2, a3); }
void all0_RD(RD &r) { r.set_all(); }
void all1_RD(RD &r, unsigned &a0) { r.set_all(a0); }
void all2_RD(RD &r, unsigned &a0, Opaque &a1) { r.set_all(a0, a1); }
void all3_RD(RD &r, unsigned &a0, Opaque &a1, unsigned &a2) { r.set_all(a0, a1, a2); }
void all4_RD(RD &r, unsigned &a0, Opaque &a1, unsigned &a2, unsigned &a3) { r.set_all(a0, a1, a2, a3); }
bool eq_RD(const RD &a, const RD &b) { return a == b; }
bool ne_RD(const RD &a, const RD &b) { return a != b; }
bool lt_RD(const RD &a, const RD &b) { return a < b; }
void tie_RD(RD &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); }
void ctie_RD(const RD &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); }
void setc0_RD(RD &r, const unsigned &v) { r.set_f0(v); }
void setm0_RD(RD &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_RD(RD &r) { return &r.get_f0(); }
const unsigned *cget0_RD(const RD &r) { return &r.get_f0(); }
void setc1_RD(RD &r, const Opaque &v) { r.set_f1(v); }
void setm1_RD(RD &r, Opaque &v) { r.set_f1(std::move(v)); }
Opaque *get1_RD(RD &r) { return &r.get_f1(); }
const Opaque *cget1_RD(const RD &r) { return &r.get_f1(); }
void setc2_RD(RD &r, const unsigned &v) { r.set_f2(v); }
void setm2_RD(RD &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_RD(RD &r) { return &r.get_f2(); }
const unsigned *cget2_RD(const RD &r) { return &r.get_f2(); }
void setc3_RD(RD &r, const unsigned &v) { r.set_f3(v); }
void setm3_RD(RD &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_RD(RD &r) { return &r.get_f3(); }
const unsigned *cget3_RD(const RD &r) { return &r.get_f3(); }
void json_RD(RD &r, const J &j) { r.load_from_json(j); }
void jstr_RD(RD &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_RD(RD *at, const RD &o) { new (at) RD(o); }
void move_RD(RD *at, RD &o) { new (at) RD(std::move(o)); }
void asg_RD(RD &a, const RD &o) { a = o; }
void new4_R5(R5 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3) { new (at) R5(a0, a1, a2, a3); }
void new5_R5(R5 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4) { new (at) R5(a0, a1, a2, a3, a4); }
void all4_R5(R5 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3) { r.set_all(a0, a1, a2, a3); }
void all5_R5(R5 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4) { r.set_all(a0, a1, a2, a3, a4); }
bool eq_R5(const R5 &a, const R5 &b) { return a == b; }
bool ne_R5(const R5 &a, const R5 &b) { return a != b; }
bool lt_R5(const R5 &a, const R5 &b) { return a < b; }
void tie_R5(R5 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); }
void ctie_R5(const R5 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); }
void setc0_R5(R5 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R5(R5 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R5(R5 &r) { return &r.get_f0(); }
const unsigned *cget0_R5(const R5 &r) { return &r.get_f0(); }
void setc1_R5(R5 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R5(R5 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R5(R5 &r) { return &r.get_f1(); }
const unsigned *cget1_R5(const R5 &r) { return &r.get_f1(); }
void setc2_R5(R5 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R5(R5 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R5(R5 &r) { return &r.get_f2(); }
const unsigned *cget2_R5(const R5 &r) { return &r.get_f2(); }
void setc3_R5(R5 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R5(R5 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R5(R5 &r) { return &r.get_f3(); }
const unsigned *cget3_R5(const R5 &r) { return &r.get_f3(); }
void setc4_R5(R5 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R5(R5 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R5(R5 &r) { return &r.get_f4(); }
const unsigned *cget4_R5(const R5 &r) { return &r.get_f4(); }
void json_R5(R5 &r, const J &j) { r.load_from_json(j); }
void new5_R6(R6 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4) { new (at) R6(a0, a1, a2, a3, a4); }
void new6_R6(R6 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5) { new (at) R6(a0, a1, a2, a3, a4, a5); }
void all5_R6(R6 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4) { r.set_all(a0, a1, a2, a3, a4); }
void all6_R6(R6 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5) { r.set_all(a0, a1, a2, a3, a4, a5); }
bool eq_R6(const R6 &a, const R6 &b) { return a == b; }
bool ne_R6(const R6 &a, const R6 &b) { return a != b; }
bool lt_R6(const R6 &a, const R6 &b) { return a < b; }
void tie_R6(R6 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); }
void ctie_R6(const R6 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); }
void setc0_R6(R6 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R6(R6 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R6(R6 &r) { return &r.get_f0(); }
const unsigned *cget0_R6(const R6 &r) { return &r.get_f0(); }
void setc1_R6(R6 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R6(R6 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R6(R6 &r) { return &r.get_f1(); }
const unsigned *cget1_R6(const R6 &r) { return &r.get_f1(); }
void setc2_R6(R6 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R6(R6 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R6(R6 &r) { return &r.get_f2(); }
const unsigned *cget2_R6(const R6 &r) { return &r.get_f2(); }
void setc3_R6(R6 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R6(R6 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R6(R6 &r) { return &r.get_f3(); }
const unsigned *cget3_R6(const R6 &r) { return &r.get_f3(); }
void setc4_R6(R6 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R6(R6 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R6(R6 &r) { return &r.get_f4(); }
const unsigned *cget4_R6(const R6 &r) { return &r.get_f4(); }
void setc5_R6(R6 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R6(R6 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R6(R6 &r) { return &r.get_f5(); }
const unsigned *cget5_R6(const R6 &r) { return &r.get_f5(); }
void json_R6(R6 &r, const J &j) { r.load_from_json(j); }
void new6_R7(R7 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5) { new (at) R7(a0, a1, a2, a3, a4, a5); }
void new7_R7(R7 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6) { new (at) R7(a0, a1, a2, a3, a4, a5, a6); }
void all6_R7(R7 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5) { r.set_all(a0, a1, a2, a3, a4, a5); }
void all7_R7(R7 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6) { r.set_all(a0, a1, a2, a3, a4, a5, a6); }
bool eq_R7(const R7 &a, const R7 &b) { return a == b; }
bool ne_R7(const R7 &a, const R7 &b) { return a != b; }
bool lt_R7(const R7 &a, const R7 &b) { return a < b; }
void tie_R7(R7 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); }
void ctie_R7(const R7 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); }
void setc0_R7(R7 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R7(R7 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R7(R7 &r) { return &r.get_f0(); }
const unsigned *cget0_R7(const R7 &r) { return &r.get_f0(); }
void setc1_R7(R7 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R7(R7 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R7(R7 &r) { return &r.get_f1(); }
const unsigned *cget1_R7(const R7 &r) { return &r.get_f1(); }
void setc2_R7(R7 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R7(R7 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R7(R7 &r) { return &r.get_f2(); }
const unsigned *cget2_R7(const R7 &r) { return &r.get_f2(); }
void setc3_R7(R7 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R7(R7 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R7(R7 &r) { return &r.get_f3(); }
const unsigned *cget3_R7(const R7 &r) { return &r.get_f3(); }
void setc4_R7(R7 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R7(R7 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R7(R7 &r) { return &r.get_f4(); }
const unsigned *cget4_R7(const R7 &r) { return &r.get_f4(); }
void setc5_R7(R7 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R7(R7 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R7(R7 &r) { return &r.get_f5(); }
const unsigned *cget5_R7(const R7 &r) { return &r.get_f5(); }
void setc6_R7(R7 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R7(R7 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R7(R7 &r) { return &r.get_f6(); }
const unsigned *cget6_R7(const R7 &r) { return &r.get_f6(); }
void json_R7(R7 &r, const J &j) { r.load_from_json(j); }
void new7_R8(R8 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6) { new (at) R8(a0, a1, a2, a3, a4, a5, a6); }
void new8_R8(R8 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7) { new (at) R8(a0, a1, a2, a3, a4, a5, a6, a7); }
void all7_R8(R8 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6) { r.set_all(a0, a1, a2, a3, a4, a5, a6); }
void all8_R8(R8 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7); }
bool eq_R8(const R8 &a, const R8 &b) { return a == b; }
bool ne_R8(const R8 &a, const R8 &b) { return a != b; }
bool lt_R8(const R8 &a, const R8 &b) { return a < b; }
void tie_R8(R8 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); }
void ctie_R8(const R8 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); }
void setc0_R8(R8 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R8(R8 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R8(R8 &r) { return &r.get_f0(); }
const unsigned *cget0_R8(const R8 &r) { return &r.get_f0(); }
void setc1_R8(R8 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R8(R8 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R8(R8 &r) { return &r.get_f1(); }
const unsigned *cget1_R8(const R8 &r) { return &r.get_f1(); }
void setc2_R8(R8 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R8(R8 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R8(R8 &r) { return &r.get_f2(); }
const unsigned *cget2_R8(const R8 &r) { return &r.get_f2(); }
void setc3_R8(R8 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R8(R8 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R8(R8 &r) { return &r.get_f3(); }
const unsigned *cget3_R8(const R8 &r) { return &r.get_f3(); }
void setc4_R8(R8 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R8(R8 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R8(R8 &r) { return &r.get_f4(); }
const unsigned *cget4_R8(const R8 &r) { return &r.get_f4(); }
void setc5_R8(R8 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R8(R8 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R8(R8 &r) { return &r.get_f5(); }
const unsigned *cget5_R8(const R8 &r) { return &r.get_f5(); }
void setc6_R8(R8 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R8(R8 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R8(R8 &r) { return &r.get_f6(); }
const unsigned *cget6_R8(const R8 &r) { return &r.get_f6(); }
void setc7_R8(R8 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R8(R8 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R8(R8 &r) { return &r.get_f7(); }
const unsigned *cget7_R8(const R8 &r) { return &r.get_f7(); }
void json_R8(R8 &r, const J &j) { r.load_from_json(j); }
void new8_R9(R9 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7) { new (at) R9(a0, a1, a2, a3, a4, a5, a6, a7); }
void new9_R9(R9 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8) { new (at) R9(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void all8_R9(R9 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7); }
void all9_R9(R9 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
bool eq_R9(const R9 &a, const R9 &b) { return a == b; }
bool ne_R9(const R9 &a, const R9 &b) { return a != b; }
bool lt_R9(const R9 &a, const R9 &b) { return a < b; }
void tie_R9(R9 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); }
void ctie_R9(const R9 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); }
void setc0_R9(R9 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R9(R9 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R9(R9 &r) { return &r.get_f0(); }
const unsigned *cget0_R9(const R9 &r) { return &r.get_f0(); }
void setc1_R9(R9 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R9(R9 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R9(R9 &r) { return &r.get_f1(); }
const unsigned *cget1_R9(const R9 &r) { return &r.get_f1(); }
void setc2_R9(R9 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R9(R9 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R9(R9 &r) { return &r.get_f2(); }
const unsigned *cget2_R9(const R9 &r) { return &r.get_f2(); }
void setc3_R9(R9 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R9(R9 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R9(R9 &r) { return &r.get_f3(); }
const unsigned *cget3_R9(const R9 &r) { return &r.get_f3(); }
void setc4_R9(R9 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R9(R9 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R9(R9 &r) { return &r.get_f4(); }
const unsigned *cget4_R9(const R9 &r) { return &r.get_f4(); }
void setc5_R9(R9 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R9(R9 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R9(R9 &r) { return &r.get_f5(); }
const unsigned *cget5_R9(const R9 &r) { return &r.get_f5(); }
void setc6_R9(R9 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R9(R9 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R9(R9 &r) { return &r.get_f6(); }
const unsigned *cget6_R9(const R9 &r) { return &r.get_f6(); }
void setc7_R9(R9 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R9(R9 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R9(R9 &r) { return &r.get_f7(); }
const unsigned *cget7_R9(const R9 &r) { return &r.get_f7(); }
void setc8_R9(R9 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R9(R9 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R9(R9 &r) { return &r.get_f8(); }
const unsigned *cget8_R9(const R9 &r) { return &r.get_f8(); }
void json_R9(R9 &r, const J &j) { r.load_from_json(j); }
void new9_R10(R10 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8) { new (at) R10(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void new10_R10(R10 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9) { new (at) R10(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
void all9_R10(R10 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void all10_R10(R10 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
bool eq_R10(const R10 &a, const R10 &b) { return a == b; }
bool ne_R10(const R10 &a, const R10 &b) { return a != b; }
bool lt_R10(const R10 &a, const R10 &b) { return a < b; }
void tie_R10(R10 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); }
void ctie_R10(const R10 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); }
void setc0_R10(R10 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R10(R10 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R10(R10 &r) { return &r.get_f0(); }
const unsigned *cget0_R10(const R10 &r) { return &r.get_f0(); }
void setc1_R10(R10 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R10(R10 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R10(R10 &r) { return &r.get_f1(); }
const unsigned *cget1_R10(const R10 &r) { return &r.get_f1(); }
void setc2_R10(R10 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R10(R10 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R10(R10 &r) { return &r.get_f2(); }
const unsigned *cget2_R10(const R10 &r) { return &r.get_f2(); }
void setc3_R10(R10 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R10(R10 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R10(R10 &r) { return &r.get_f3(); }
const unsigned *cget3_R10(const R10 &r) { return &r.get_f3(); }
void setc4_R10(R10 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R10(R10 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R10(R10 &r) { return &r.get_f4(); }
const unsigned *cget4_R10(const R10 &r) { return &r.get_f4(); }
void setc5_R10(R10 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R10(R10 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R10(R10 &r) { return &r.get_f5(); }
const unsigned *cget5_R10(const R10 &r) { return &r.get_f5(); }
void setc6_R10(R10 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R10(R10 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R10(R10 &r) { return &r.get_f6(); }
const unsigned *cget6_R10(const R10 &r) { return &r.get_f6(); }
void setc7_R10(R10 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R10(R10 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R10(R10 &r) { return &r.get_f7(); }
const unsigned *cget7_R10(const R10 &r) { return &r.get_f7(); }
void setc8_R10(R10 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R10(R10 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R10(R10 &r) { return &r.get_f8(); }
const unsigned *cget8_R10(const R10 &r) { return &r.get_f8(); }
void setc9_R10(R10 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R10(R10 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R10(R10 &r) { return &r.get_f9(); }
const unsigned *cget9_R10(const R10 &r) { return &r.get_f9(); }
void json_R10(R10 &r, const J &j) { r.load_from_json(j); }
void new10_R11(R11 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9) { new (at) R11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
void new11_R11(R11 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10) { new (at) R11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
void all10_R11(R11 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
void all11_R11(R11 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
bool eq_R11(const R11 &a, const R11 &b) { return a == b; }
bool ne_R11(const R11 &a, const R11 &b) { return a != b; }
bool lt_R11(const R11 &a, const R11 &b) { return a < b; }
void tie_R11(R11 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); }
void ctie_R11(const R11 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); }
void setc0_R11(R11 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R11(R11 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R11(R11 &r) { return &r.get_f0(); }
const unsigned *cget0_R11(const R11 &r) { return &r.get_f0(); }
void setc1_R11(R11 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R11(R11 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R11(R11 &r) { return &r.get_f1(); }
const unsigned *cget1_R11(const R11 &r) { return &r.get_f1(); }
void setc2_R11(R11 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R11(R11 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R11(R11 &r) { return &r.get_f2(); }
const unsigned *cget2_R11(const R11 &r) { return &r.get_f2(); }
void setc3_R11(R11 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R11(R11 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R11(R11 &r) { return &r.get_f3(); }
const unsigned *cget3_R11(const R11 &r) { return &r.get_f3(); }
void setc4_R11(R11 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R11(R11 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R11(R11 &r) { return &r.get_f4(); }
const unsigned *cget4_R11(const R11 &r) { return &r.get_f4(); }
void setc5_R11(R11 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R11(R11 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R11(R11 &r) { return &r.get_f5(); }
const unsigned *cget5_R11(const R11 &r) { return &r.get_f5(); }
void setc6_R11(R11 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R11(R11 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R11(R11 &r) { return &r.get_f6(); }
const unsigned *cget6_R11(const R11 &r) { return &r.get_f6(); }
void setc7_R11(R11 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R11(R11 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R11(R11 &r) { return &r.get_f7(); }
const unsigned *cget7_R11(const R11 &r) { return &r.get_f7(); }
void setc8_R11(R11 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R11(R11 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R11(R11 &r) { return &r.get_f8(); }
const unsigned *cget8_R11(const R11 &r) { return &r.get_f8(); }
void setc9_R11(R11 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R11(R11 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R11(R11 &r) { return &r.get_f9(); }
const unsigned *cget9_R11(const R11 &r) { return &r.get_f9(); }
void setc10_R11(R11 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R11(R11 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R11(R11 &r) { return &r.get_f10(); }
const unsigned *cget10_R11(const R11 &r) { return &r.get_f10(); }
void json_R11(R11 &r, const J &j) { r.load_from_json(j); }
void new11_R12(R12 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10) { new (at) R12(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
void new12_R12(R12 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11) { new (at) R12(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
void all11_R12(R12 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
void all12_R12(R12 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
bool eq_R12(const R12 &a, const R12 &b) { return a == b; }
bool ne_R12(const R12 &a, const R12 &b) { return a != b; }
bool lt_R12(const R12 &a, const R12 &b) { return a < b; }
void tie_R12(R12 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); }
void ctie_R12(const R12 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); }
void setc0_R12(R12 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R12(R12 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R12(R12 &r) { return &r.get_f0(); }
const unsigned *cget0_R12(const R12 &r) { return &r.get_f0(); }
void setc1_R12(R12 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R12(R12 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R12(R12 &r) { return &r.get_f1(); }
const unsigned *cget1_R12(const R12 &r) { return &r.get_f1(); }
void setc2_R12(R12 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R12(R12 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R12(R12 &r) { return &r.get_f2(); }
const unsigned *cget2_R12(const R12 &r) { return &r.get_f2(); }
void setc3_R12(R12 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R12(R12 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R12(R12 &r) { return &r.get_f3(); }
const unsigned *cget3_R12(const R12 &r) { return &r.get_f3(); }
void setc4_R12(R12 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R12(R12 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R12(R12 &r) { return &r.get_f4(); }
const unsigned *cget4_R12(const R12 &r) { return &r.get_f4(); }
void setc5_R12(R12 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R12(R12 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R12(R12 &r) { return &r.get_f5(); }
const unsigned *cget5_R12(const R12 &r) { return &r.get_f5(); }
void setc6_R12(R12 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R12(R12 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R12(R12 &r) { return &r.get_f6(); }
const unsigned *cget6_R12(const R12 &r) { return &r.get_f6(); }
void setc7_R12(R12 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R12(R12 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R12(R12 &r) { return &r.get_f7(); }
const unsigned *cget7_R12(const R12 &r) { return &r.get_f7(); }
void setc8_R12(R12 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R12(R12 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R12(R12 &r) { return &r.get_f8(); }
const unsigned *cget8_R12(const R12 &r) { return &r.get_f8(); }
void setc9_R12(R12 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R12(R12 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R12(R12 &r) { return &r.get_f9(); }
const unsigned *cget9_R12(const R12 &r) { return &r.get_f9(); }
void setc10_R12(R12 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R12(R12 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R12(R12 &r) { return &r.get_f10(); }
const unsigned *cget10_R12(const R12 &r) { return &r.get_f10(); }
void setc11_R12(R12 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R12(R12 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R12(R12 &r) { return &r.get_f11(); }
const unsigned *cget11_R12(const R12 &r) { return &r.get_f11(); }
void json_R12(R12 &r, const J &j) { r.load_from_json(j); }
void new12_R13(R13 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11) { new (at) R13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
void new13_R13(R13 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12) { new (at) R13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
void all12_R13(R13 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
void all13_R13(R13 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
bool eq_R13(const R13 &a, const R13 &b) { return a == b; }
bool ne_R13(const R13 &a, const R13 &b) { return a != b; }
bool lt_R13(const R13 &a, const R13 &b) { return a < b; }
void tie_R13(R13 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); }
void ctie_R13(const R13 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); }
void setc0_R13(R13 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R13(R13 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R13(R13 &r) { return &r.get_f0(); }
const unsigned *cget0_R13(const R13 &r) { return &r.get_f0(); }
void setc1_R13(R13 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R13(R13 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R13(R13 &r) { return &r.get_f1(); }
const unsigned *cget1_R13(const R13 &r) { return &r.get_f1(); }
void setc2_R13(R13 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R13(R13 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R13(R13 &r) { return &r.get_f2(); }
const unsigned *cget2_R13(const R13 &r) { return &r.get_f2(); }
void setc3_R13(R13 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R13(R13 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R13(R13 &r) { return &r.get_f3(); }
const unsigned *cget3_R13(const R13 &r) { return &r.get_f3(); }
void setc4_R13(R13 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R13(R13 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R13(R13 &r) { return &r.get_f4(); }
const unsigned *cget4_R13(const R13 &r) { return &r.get_f4(); }
void setc5_R13(R13 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R13(R13 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R13(R13 &r) { return &r.get_f5(); }
const unsigned *cget5_R13(const R13 &r) { return &r.get_f5(); }
void setc6_R13(R13 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R13(R13 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R13(R13 &r) { return &r.get_f6(); }
const unsigned *cget6_R13(const R13 &r) { return &r.get_f6(); }
void setc7_R13(R13 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R13(R13 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R13(R13 &r) { return &r.get_f7(); }
const unsigned *cget7_R13(const R13 &r) { return &r.get_f7(); }
void setc8_R13(R13 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R13(R13 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R13(R13 &r) { return &r.get_f8(); }
const unsigned *cget8_R13(const R13 &r) { return &r.get_f8(); }
void setc9_R13(R13 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R13(R13 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R13(R13 &r) { return &r.get_f9(); }
const unsigned *cget9_R13(const R13 &r) { return &r.get_f9(); }
void setc10_R13(R13 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R13(R13 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R13(R13 &r) { return &r.get_f10(); }
const unsigned *cget10_R13(const R13 &r) { return &r.get_f10(); }
void setc11_R13(R13 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R13(R13 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R13(R13 &r) { return &r.get_f11(); }
const unsigned *cget11_R13(const R13 &r) { return &r.get_f11(); }
void setc12_R13(R13 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R13(R13 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R13(R13 &r) { return &r.get_f12(); }
const unsigned *cget12_R13(const R13 &r) { return &r.get_f12(); }
void json_R13(R13 &r, const J &j) { r.load_from_json(j); }
void new13_R14(R14 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12) { new (at) R14(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
void new14_R14(R14 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13) { new (at) R14(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); }
void all13_R14(R14 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); }
void all14_R14(R14 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); }
bool eq_R14(const R14 &a, const R14 &b) { return a == b; }
bool ne_R14(const R14 &a, const R14 &b) { return a != b; }
bool lt_R14(const R14 &a, const R14 &b) { return a < b; }
void tie_R14(R14 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); }
void ctie_R14(const R14 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); }
void setc0_R14(R14 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R14(R14 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R14(R14 &r) { return &r.get_f0(); }
const unsigned *cget0_R14(const R14 &r) { return &r.get_f0(); }
void setc1_R14(R14 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R14(R14 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R14(R14 &r) { return &r.get_f1(); }
const unsigned *cget1_R14(const R14 &r) { return &r.get_f1(); }
void setc2_R14(R14 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R14(R14 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R14(R14 &r) { return &r.get_f2(); }
const unsigned *cget2_R14(const R14 &r) { return &r.get_f2(); }
void setc3_R14(R14 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R14(R14 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R14(R14 &r) { return &r.get_f3(); }
const unsigned *cget3_R14(const R14 &r) { return &r.get_f3(); }
void setc4_R14(R14 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R14(R14 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R14(R14 &r) { return &r.get_f4(); }
const unsigned *cget4_R14(const R14 &r) { return &r.get_f4(); }
void setc5_R14(R14 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R14(R14 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R14(R14 &r) { return &r.get_f5(); }
const unsigned *cget5_R14(const R14 &r) { return &r.get_f5(); }
void setc6_R14(R14 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R14(R14 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R14(R14 &r) { return &r.get_f6(); }
const unsigned *cget6_R14(const R14 &r) { return &r.get_f6(); }
void setc7_R14(R14 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R14(R14 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R14(R14 &r) { return &r.get_f7(); }
const unsigned *cget7_R14(const R14 &r) { return &r.get_f7(); }
void setc8_R14(R14 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R14(R14 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R14(R14 &r) { return &r.get_f8(); }
const unsigned *cget8_R14(const R14 &r) { return &r.get_f8(); }
void setc9_R14(R14 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R14(R14 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R14(R14 &r) { return &r.get_f9(); }
const unsigned *cget9_R14(const R14 &r) { return &r.get_f9(); }
void setc10_R14(R14 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R14(R14 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R14(R14 &r) { return &r.get_f10(); }
const unsigned *cget10_R14(const R14 &r) { return &r.get_f10(); }
void setc11_R14(R14 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R14(R14 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R14(R14 &r) { return &r.get_f11(); }
const unsigned *cget11_R14(const R14 &r) { return &r.get_f11(); }
void setc12_R14(R14 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R14(R14 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R14(R14 &r) { return &r.get_f12(); }
const unsigned *cget12_R14(const R14 &r) { return &r.get_f12(); }
void setc13_R14(R14 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R14(R14 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R14(R14 &r) { return &r.get_f13(); }
const unsigned *cget13_R14(const R14 &r) { return &r.get_f13(); }
void json_R14(R14 &r, const J &j) { r.load_from_json(j); }
void new14_R15(R15 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13) { new (at) R15(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); }
void new15_R15(R15 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14) { new (at) R15(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void all14_R15(R15 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); }
void all15_R15(R15 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
bool eq_R15(const R15 &a, const R15 &b) { return a == b; }
bool ne_R15(const R15 &a, const R15 &b) { return a != b; }
bool lt_R15(const R15 &a, const R15 &b) { return a < b; }
void tie_R15(R15 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); }
void ctie_R15(const R15 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); }
void setc0_R15(R15 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R15(R15 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R15(R15 &r) { return &r.get_f0(); }
const unsigned *cget0_R15(const R15 &r) { return &r.get_f0(); }
void setc1_R15(R15 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R15(R15 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R15(R15 &r) { return &r.get_f1(); }
const unsigned *cget1_R15(const R15 &r) { return &r.get_f1(); }
void setc2_R15(R15 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R15(R15 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R15(R15 &r) { return &r.get_f2(); }
const unsigned *cget2_R15(const R15 &r) { return &r.get_f2(); }
void setc3_R15(R15 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R15(R15 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R15(R15 &r) { return &r.get_f3(); }
const unsigned *cget3_R15(const R15 &r) { return &r.get_f3(); }
void setc4_R15(R15 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R15(R15 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R15(R15 &r) { return &r.get_f4(); }
const unsigned *cget4_R15(const R15 &r) { return &r.get_f4(); }
void setc5_R15(R15 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R15(R15 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R15(R15 &r) { return &r.get_f5(); }
const unsigned *cget5_R15(const R15 &r) { return &r.get_f5(); }
void setc6_R15(R15 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R15(R15 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R15(R15 &r) { return &r.get_f6(); }
const unsigned *cget6_R15(const R15 &r) { return &r.get_f6(); }
void setc7_R15(R15 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R15(R15 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R15(R15 &r) { return &r.get_f7(); }
const unsigned *cget7_R15(const R15 &r) { return &r.get_f7(); }
void setc8_R15(R15 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R15(R15 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R15(R15 &r) { return &r.get_f8(); }
const unsigned *cget8_R15(const R15 &r) { return &r.get_f8(); }
void setc9_R15(R15 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R15(R15 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R15(R15 &r) { return &r.get_f9(); }
const unsigned *cget9_R15(const R15 &r) { return &r.get_f9(); }
void setc10_R15(R15 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R15(R15 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R15(R15 &r) { return &r.get_f10(); }
const unsigned *cget10_R15(const R15 &r) { return &r.get_f10(); }
void setc11_R15(R15 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R15(R15 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R15(R15 &r) { return &r.get_f11(); }
const unsigned *cget11_R15(const R15 &r) { return &r.get_f11(); }
void setc12_R15(R15 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R15(R15 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R15(R15 &r) { return &r.get_f12(); }
const unsigned *cget12_R15(const R15 &r) { return &r.get_f12(); }
void setc13_R15(R15 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R15(R15 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R15(R15 &r) { return &r.get_f13(); }
const unsigned *cget13_R15(const R15 &r) { return &r.get_f13(); }
void setc14_R15(R15 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R15(R15 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R15(R15 &r) { return &r.get_f14(); }
const unsigned *cget14_R15(const R15 &r) { return &r.get_f14(); }
void json_R15(R15 &r, const J &j) { r.load_from_json(j); }
void new15_R16(R16 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14) { new (at) R16(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void new16_R16(R16 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15) { new (at) R16(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void all15_R16(R16 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14); }
void all16_R16(R16 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
bool eq_R16(const R16 &a, const R16 &b) { return a == b; }
bool ne_R16(const R16 &a, const R16 &b) { return a != b; }
bool lt_R16(const R16 &a, const R16 &b) { return a < b; }
void tie_R16(R16 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); }
void ctie_R16(const R16 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); }
void setc0_R16(R16 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R16(R16 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R16(R16 &r) { return &r.get_f0(); }
const unsigned *cget0_R16(const R16 &r) { return &r.get_f0(); }
void setc1_R16(R16 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R16(R16 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R16(R16 &r) { return &r.get_f1(); }
const unsigned *cget1_R16(const R16 &r) { return &r.get_f1(); }
void setc2_R16(R16 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R16(R16 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R16(R16 &r) { return &r.get_f2(); }
const unsigned *cget2_R16(const R16 &r) { return &r.get_f2(); }
void setc3_R16(R16 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R16(R16 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R16(R16 &r) { return &r.get_f3(); }
const unsigned *cget3_R16(const R16 &r) { return &r.get_f3(); }
void setc4_R16(R16 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R16(R16 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R16(R16 &r) { return &r.get_f4(); }
const unsigned *cget4_R16(const R16 &r) { return &r.get_f4(); }
void setc5_R16(R16 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R16(R16 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R16(R16 &r) { return &r.get_f5(); }
const unsigned *cget5_R16(const R16 &r) { return &r.get_f5(); }
void setc6_R16(R16 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R16(R16 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R16(R16 &r) { return &r.get_f6(); }
const unsigned *cget6_R16(const R16 &r) { return &r.get_f6(); }
void setc7_R16(R16 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R16(R16 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R16(R16 &r) { return &r.get_f7(); }
const unsigned *cget7_R16(const R16 &r) { return &r.get_f7(); }
void setc8_R16(R16 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R16(R16 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R16(R16 &r) { return &r.get_f8(); }
const unsigned *cget8_R16(const R16 &r) { return &r.get_f8(); }
void setc9_R16(R16 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R16(R16 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R16(R16 &r) { return &r.get_f9(); }
const unsigned *cget9_R16(const R16 &r) { return &r.get_f9(); }
void setc10_R16(R16 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R16(R16 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R16(R16 &r) { return &r.get_f10(); }
const unsigned *cget10_R16(const R16 &r) { return &r.get_f10(); }
void setc11_R16(R16 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R16(R16 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R16(R16 &r) { return &r.get_f11(); }
const unsigned *cget11_R16(const R16 &r) { return &r.get_f11(); }
void setc12_R16(R16 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R16(R16 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R16(R16 &r) { return &r.get_f12(); }
const unsigned *cget12_R16(const R16 &r) { return &r.get_f12(); }
void setc13_R16(R16 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R16(R16 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R16(R16 &r) { return &r.get_f13(); }
const unsigned *cget13_R16(const R16 &r) { return &r.get_f13(); }
void setc14_R16(R16 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R16(R16 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R16(R16 &r) { return &r.get_f14(); }
const unsigned *cget14_R16(const R16 &r) { return &r.get_f14(); }
void setc15_R16(R16 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R16(R16 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R16(R16 &r) { return &r.get_f15(); }
const unsigned *cget15_R16(const R16 &r) { return &r.get_f15(); }
void json_R16(R16 &r, const J &j) { r.load_from_json(j); }
void new16_R17(R17 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15) { new (at) R17(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void new17_R17(R17 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16) { new (at) R17(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16); }
void all16_R17(R17 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); }
void all17_R17(R17 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16); }
bool eq_R17(const R17 &a, const R17 &b) { return a == b; }
bool ne_R17(const R17 &a, const R17 &b) { return a != b; }
bool lt_R17(const R17 &a, const R17 &b) { return a < b; }
void tie_R17(R17 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); }
void ctie_R17(const R17 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); }
void setc0_R17(R17 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R17(R17 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R17(R17 &r) { return &r.get_f0(); }
const unsigned *cget0_R17(const R17 &r) { return &r.get_f0(); }
void setc1_R17(R17 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R17(R17 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R17(R17 &r) { return &r.get_f1(); }
const unsigned *cget1_R17(const R17 &r) { return &r.get_f1(); }
void setc2_R17(R17 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R17(R17 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R17(R17 &r) { return &r.get_f2(); }
const unsigned *cget2_R17(const R17 &r) { return &r.get_f2(); }
void setc3_R17(R17 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R17(R17 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R17(R17 &r) { return &r.get_f3(); }
const unsigned *cget3_R17(const R17 &r) { return &r.get_f3(); }
void setc4_R17(R17 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R17(R17 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R17(R17 &r) { return &r.get_f4(); }
const unsigned *cget4_R17(const R17 &r) { return &r.get_f4(); }
void setc5_R17(R17 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R17(R17 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R17(R17 &r) { return &r.get_f5(); }
const unsigned *cget5_R17(const R17 &r) { return &r.get_f5(); }
void setc6_R17(R17 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R17(R17 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R17(R17 &r) { return &r.get_f6(); }
const unsigned *cget6_R17(const R17 &r) { return &r.get_f6(); }
void setc7_R17(R17 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R17(R17 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R17(R17 &r) { return &r.get_f7(); }
const unsigned *cget7_R17(const R17 &r) { return &r.get_f7(); }
void setc8_R17(R17 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R17(R17 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R17(R17 &r) { return &r.get_f8(); }
const unsigned *cget8_R17(const R17 &r) { return &r.get_f8(); }
void setc9_R17(R17 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R17(R17 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R17(R17 &r) { return &r.get_f9(); }
const unsigned *cget9_R17(const R17 &r) { return &r.get_f9(); }
void setc10_R17(R17 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R17(R17 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R17(R17 &r) { return &r.get_f10(); }
const unsigned *cget10_R17(const R17 &r) { return &r.get_f10(); }
void setc11_R17(R17 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R17(R17 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R17(R17 &r) { return &r.get_f11(); }
const unsigned *cget11_R17(const R17 &r) { return &r.get_f11(); }
void setc12_R17(R17 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R17(R17 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R17(R17 &r) { return &r.get_f12(); }
const unsigned *cget12_R17(const R17 &r) { return &r.get_f12(); }
void setc13_R17(R17 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R17(R17 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R17(R17 &r) { return &r.get_f13(); }
const unsigned *cget13_R17(const R17 &r) { return &r.get_f13(); }
void setc14_R17(R17 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R17(R17 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R17(R17 &r) { return &r.get_f14(); }
const unsigned *cget14_R17(const R17 &r) { return &r.get_f14(); }
void setc15_R17(R17 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R17(R17 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R17(R17 &r) { return &r.get_f15(); }
const unsigned *cget15_R17(const R17 &r) { return &r.get_f15(); }
void setc16_R17(R17 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R17(R17 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R17(R17 &r) { return &r.get_f16(); }
const unsigned *cget16_R17(const R17 &r) { return &r.get_f16(); }
void json_R17(R17 &r, const J &j) { r.load_from_json(j); }
void new17_R18(R18 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16) { new (at) R18(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16); }
void new18_R18(R18 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17) { new (at) R18(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17); }
void all17_R18(R18 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16); }
void all18_R18(R18 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17); }
bool eq_R18(const R18 &a, const R18 &b) { return a == b; }
bool ne_R18(const R18 &a, const R18 &b) { return a != b; }
bool lt_R18(const R18 &a, const R18 &b) { return a < b; }
void tie_R18(R18 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); }
void ctie_R18(const R18 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); }
void setc0_R18(R18 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R18(R18 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R18(R18 &r) { return &r.get_f0(); }
const unsigned *cget0_R18(const R18 &r) { return &r.get_f0(); }
void setc1_R18(R18 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R18(R18 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R18(R18 &r) { return &r.get_f1(); }
const unsigned *cget1_R18(const R18 &r) { return &r.get_f1(); }
void setc2_R18(R18 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R18(R18 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R18(R18 &r) { return &r.get_f2(); }
const unsigned *cget2_R18(const R18 &r) { return &r.get_f2(); }
void setc3_R18(R18 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R18(R18 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R18(R18 &r) { return &r.get_f3(); }
const unsigned *cget3_R18(const R18 &r) { return &r.get_f3(); }
void setc4_R18(R18 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R18(R18 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R18(R18 &r) { return &r.get_f4(); }
const unsigned *cget4_R18(const R18 &r) { return &r.get_f4(); }
void setc5_R18(R18 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R18(R18 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R18(R18 &r) { return &r.get_f5(); }
const unsigned *cget5_R18(const R18 &r) { return &r.get_f5(); }
void setc6_R18(R18 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R18(R18 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R18(R18 &r) { return &r.get_f6(); }
const unsigned *cget6_R18(const R18 &r) { return &r.get_f6(); }
void setc7_R18(R18 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R18(R18 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R18(R18 &r) { return &r.get_f7(); }
const unsigned *cget7_R18(const R18 &r) { return &r.get_f7(); }
void setc8_R18(R18 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R18(R18 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R18(R18 &r) { return &r.get_f8(); }
const unsigned *cget8_R18(const R18 &r) { return &r.get_f8(); }
void setc9_R18(R18 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R18(R18 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R18(R18 &r) { return &r.get_f9(); }
const unsigned *cget9_R18(const R18 &r) { return &r.get_f9(); }
void setc10_R18(R18 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R18(R18 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R18(R18 &r) { return &r.get_f10(); }
const unsigned *cget10_R18(const R18 &r) { return &r.get_f10(); }
void setc11_R18(R18 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R18(R18 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R18(R18 &r) { return &r.get_f11(); }
const unsigned *cget11_R18(const R18 &r) { return &r.get_f11(); }
void setc12_R18(R18 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R18(R18 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R18(R18 &r) { return &r.get_f12(); }
const unsigned *cget12_R18(const R18 &r) { return &r.get_f12(); }
void setc13_R18(R18 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R18(R18 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R18(R18 &r) { return &r.get_f13(); }
const unsigned *cget13_R18(const R18 &r) { return &r.get_f13(); }
void setc14_R18(R18 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R18(R18 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R18(R18 &r) { return &r.get_f14(); }
const unsigned *cget14_R18(const R18 &r) { return &r.get_f14(); }
void setc15_R18(R18 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R18(R18 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R18(R18 &r) { return &r.get_f15(); }
const unsigned *cget15_R18(const R18 &r) { return &r.get_f15(); }
void setc16_R18(R18 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R18(R18 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R18(R18 &r) { return &r.get_f16(); }
const unsigned *cget16_R18(const R18 &r) { return &r.get_f16(); }
void setc17_R18(R18 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R18(R18 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R18(R18 &r) { return &r.get_f17(); }
const unsigned *cget17_R18(const R18 &r) { return &r.get_f17(); }
void json_R18(R18 &r, const J &j) { r.load_from_json(j); }
void new18_R19(R19 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17) { new (at) R19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17); }
void new19_R19(R19 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18) { new (at) R19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18); }
void all18_R19(R19 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17); }
void all19_R19(R19 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18); }
bool eq_R19(const R19 &a, const R19 &b) { return a == b; }
bool ne_R19(const R19 &a, const R19 &b) { return a != b; }
bool lt_R19(const R19 &a, const R19 &b) { return a < b; }
void tie_R19(R19 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); }
void ctie_R19(const R19 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); }
void setc0_R19(R19 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R19(R19 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R19(R19 &r) { return &r.get_f0(); }
const unsigned *cget0_R19(const R19 &r) { return &r.get_f0(); }
void setc1_R19(R19 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R19(R19 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R19(R19 &r) { return &r.get_f1(); }
const unsigned *cget1_R19(const R19 &r) { return &r.get_f1(); }
void setc2_R19(R19 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R19(R19 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R19(R19 &r) { return &r.get_f2(); }
const unsigned *cget2_R19(const R19 &r) { return &r.get_f2(); }
void setc3_R19(R19 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R19(R19 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R19(R19 &r) { return &r.get_f3(); }
const unsigned *cget3_R19(const R19 &r) { return &r.get_f3(); }
void setc4_R19(R19 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R19(R19 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R19(R19 &r) { return &r.get_f4(); }
const unsigned *cget4_R19(const R19 &r) { return &r.get_f4(); }
void setc5_R19(R19 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R19(R19 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R19(R19 &r) { return &r.get_f5(); }
const unsigned *cget5_R19(const R19 &r) { return &r.get_f5(); }
void setc6_R19(R19 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R19(R19 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R19(R19 &r) { return &r.get_f6(); }
const unsigned *cget6_R19(const R19 &r) { return &r.get_f6(); }
void setc7_R19(R19 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R19(R19 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R19(R19 &r) { return &r.get_f7(); }
const unsigned *cget7_R19(const R19 &r) { return &r.get_f7(); }
void setc8_R19(R19 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R19(R19 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R19(R19 &r) { return &r.get_f8(); }
const unsigned *cget8_R19(const R19 &r) { return &r.get_f8(); }
void setc9_R19(R19 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R19(R19 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R19(R19 &r) { return &r.get_f9(); }
const unsigned *cget9_R19(const R19 &r) { return &r.get_f9(); }
void setc10_R19(R19 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R19(R19 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R19(R19 &r) { return &r.get_f10(); }
const unsigned *cget10_R19(const R19 &r) { return &r.get_f10(); }
void setc11_R19(R19 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R19(R19 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R19(R19 &r) { return &r.get_f11(); }
const unsigned *cget11_R19(const R19 &r) { return &r.get_f11(); }
void setc12_R19(R19 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R19(R19 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R19(R19 &r) { return &r.get_f12(); }
const unsigned *cget12_R19(const R19 &r) { return &r.get_f12(); }
void setc13_R19(R19 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R19(R19 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R19(R19 &r) { return &r.get_f13(); }
const unsigned *cget13_R19(const R19 &r) { return &r.get_f13(); }
void setc14_R19(R19 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R19(R19 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R19(R19 &r) { return &r.get_f14(); }
const unsigned *cget14_R19(const R19 &r) { return &r.get_f14(); }
void setc15_R19(R19 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R19(R19 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R19(R19 &r) { return &r.get_f15(); }
const unsigned *cget15_R19(const R19 &r) { return &r.get_f15(); }
void setc16_R19(R19 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R19(R19 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R19(R19 &r) { return &r.get_f16(); }
const unsigned *cget16_R19(const R19 &r) { return &r.get_f16(); }
void setc17_R19(R19 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R19(R19 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R19(R19 &r) { return &r.get_f17(); }
const unsigned *cget17_R19(const R19 &r) { return &r.get_f17(); }
void setc18_R19(R19 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R19(R19 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R19(R19 &r) { return &r.get_f18(); }
const unsigned *cget18_R19(const R19 &r) { return &r.get_f18(); }
void json_R19(R19 &r, const J &j) { r.load_from_json(j); }
void new19_R20(R20 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18) { new (at) R20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18); }
void new20_R20(R20 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19) { new (at) R20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19); }
void all19_R20(R20 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18); }
void all20_R20(R20 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19); }
bool eq_R20(const R20 &a, const R20 &b) { return a == b; }
bool ne_R20(const R20 &a, const R20 &b) { return a != b; }
bool lt_R20(const R20 &a, const R20 &b) { return a < b; }
void tie_R20(R20 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); }
void ctie_R20(const R20 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); }
void setc0_R20(R20 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R20(R20 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R20(R20 &r) { return &r.get_f0(); }
const unsigned *cget0_R20(const R20 &r) { return &r.get_f0(); }
void setc1_R20(R20 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R20(R20 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R20(R20 &r) { return &r.get_f1(); }
const unsigned *cget1_R20(const R20 &r) { return &r.get_f1(); }
void setc2_R20(R20 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R20(R20 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R20(R20 &r) { return &r.get_f2(); }
const unsigned *cget2_R20(const R20 &r) { return &r.get_f2(); }
void setc3_R20(R20 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R20(R20 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R20(R20 &r) { return &r.get_f3(); }
const unsigned *cget3_R20(const R20 &r) { return &r.get_f3(); }
void setc4_R20(R20 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R20(R20 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R20(R20 &r) { return &r.get_f4(); }
const unsigned *cget4_R20(const R20 &r) { return &r.get_f4(); }
void setc5_R20(R20 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R20(R20 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R20(R20 &r) { return &r.get_f5(); }
const unsigned *cget5_R20(const R20 &r) { return &r.get_f5(); }
void setc6_R20(R20 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R20(R20 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R20(R20 &r) { return &r.get_f6(); }
const unsigned *cget6_R20(const R20 &r) { return &r.get_f6(); }
void setc7_R20(R20 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R20(R20 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R20(R20 &r) { return &r.get_f7(); }
const unsigned *cget7_R20(const R20 &r) { return &r.get_f7(); }
void setc8_R20(R20 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R20(R20 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R20(R20 &r) { return &r.get_f8(); }
const unsigned *cget8_R20(const R20 &r) { return &r.get_f8(); }
void setc9_R20(R20 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R20(R20 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R20(R20 &r) { return &r.get_f9(); }
const unsigned *cget9_R20(const R20 &r) { return &r.get_f9(); }
void setc10_R20(R20 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R20(R20 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R20(R20 &r) { return &r.get_f10(); }
const unsigned *cget10_R20(const R20 &r) { return &r.get_f10(); }
void setc11_R20(R20 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R20(R20 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R20(R20 &r) { return &r.get_f11(); }
const unsigned *cget11_R20(const R20 &r) { return &r.get_f11(); }
void setc12_R20(R20 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R20(R20 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R20(R20 &r) { return &r.get_f12(); }
const unsigned *cget12_R20(const R20 &r) { return &r.get_f12(); }
void setc13_R20(R20 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R20(R20 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R20(R20 &r) { return &r.get_f13(); }
const unsigned *cget13_R20(const R20 &r) { return &r.get_f13(); }
void setc14_R20(R20 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R20(R20 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R20(R20 &r) { return &r.get_f14(); }
const unsigned *cget14_R20(const R20 &r) { return &r.get_f14(); }
void setc15_R20(R20 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R20(R20 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R20(R20 &r) { return &r.get_f15(); }
const unsigned *cget15_R20(const R20 &r) { return &r.get_f15(); }
void setc16_R20(R20 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R20(R20 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R20(R20 &r) { return &r.get_f16(); }
const unsigned *cget16_R20(const R20 &r) { return &r.get_f16(); }
void setc17_R20(R20 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R20(R20 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R20(R20 &r) { return &r.get_f17(); }
const unsigned *cget17_R20(const R20 &r) { return &r.get_f17(); }
void setc18_R20(R20 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R20(R20 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R20(R20 &r) { return &r.get_f18(); }
const unsigned *cget18_R20(const R20 &r) { return &r.get_f18(); }
void setc19_R20(R20 &r, const unsigned &v) { r.set_f19(v); }
void setm19_R20(R20 &r, unsigned &v) { r.set_f19(std::move(v)); }
unsigned *get19_R20(R20 &r) { return &r.get_f19(); }
const unsigned *cget19_R20(const R20 &r) { return &r.get_f19(); }
void json_R20(R20 &r, const J &j) { r.load_from_json(j); }
void new20_R21(R21 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19) { new (at) R21(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19); }
void new21_R21(R21 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20) { new (at) R21(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20); }
void all20_R21(R21 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19); }
void all21_R21(R21 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20); }
bool eq_R21(const R21 &a, const R21 &b) { return a == b; }
bool ne_R21(const R21 &a, const R21 &b) { return a != b; }
bool lt_R21(const R21 &a, const R21 &b) { return a < b; }
void tie_R21(R21 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); }
void ctie_R21(const R21 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); }
void setc0_R21(R21 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R21(R21 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R21(R21 &r) { return &r.get_f0(); }
const unsigned *cget0_R21(const R21 &r) { return &r.get_f0(); }
void setc1_R21(R21 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R21(R21 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R21(R21 &r) { return &r.get_f1(); }
const unsigned *cget1_R21(const R21 &r) { return &r.get_f1(); }
void setc2_R21(R21 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R21(R21 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R21(R21 &r) { return &r.get_f2(); }
const unsigned *cget2_R21(const R21 &r) { return &r.get_f2(); }
void setc3_R21(R21 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R21(R21 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R21(R21 &r) { return &r.get_f3(); }
const unsigned *cget3_R21(const R21 &r) { return &r.get_f3(); }
void setc4_R21(R21 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R21(R21 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R21(R21 &r) { return &r.get_f4(); }
const unsigned *cget4_R21(const R21 &r) { return &r.get_f4(); }
void setc5_R21(R21 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R21(R21 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R21(R21 &r) { return &r.get_f5(); }
const unsigned *cget5_R21(const R21 &r) { return &r.get_f5(); }
void setc6_R21(R21 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R21(R21 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R21(R21 &r) { return &r.get_f6(); }
const unsigned *cget6_R21(const R21 &r) { return &r.get_f6(); }
void setc7_R21(R21 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R21(R21 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R21(R21 &r) { return &r.get_f7(); }
const unsigned *cget7_R21(const R21 &r) { return &r.get_f7(); }
void setc8_R21(R21 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R21(R21 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R21(R21 &r) { return &r.get_f8(); }
const unsigned *cget8_R21(const R21 &r) { return &r.get_f8(); }
void setc9_R21(R21 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R21(R21 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R21(R21 &r) { return &r.get_f9(); }
const unsigned *cget9_R21(const R21 &r) { return &r.get_f9(); }
void setc10_R21(R21 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R21(R21 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R21(R21 &r) { return &r.get_f10(); }
const unsigned *cget10_R21(const R21 &r) { return &r.get_f10(); }
void setc11_R21(R21 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R21(R21 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R21(R21 &r) { return &r.get_f11(); }
const unsigned *cget11_R21(const R21 &r) { return &r.get_f11(); }
void setc12_R21(R21 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R21(R21 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R21(R21 &r) { return &r.get_f12(); }
const unsigned *cget12_R21(const R21 &r) { return &r.get_f12(); }
void setc13_R21(R21 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R21(R21 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R21(R21 &r) { return &r.get_f13(); }
const unsigned *cget13_R21(const R21 &r) { return &r.get_f13(); }
void setc14_R21(R21 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R21(R21 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R21(R21 &r) { return &r.get_f14(); }
const unsigned *cget14_R21(const R21 &r) { return &r.get_f14(); }
void setc15_R21(R21 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R21(R21 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R21(R21 &r) { return &r.get_f15(); }
const unsigned *cget15_R21(const R21 &r) { return &r.get_f15(); }
void setc16_R21(R21 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R21(R21 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R21(R21 &r) { return &r.get_f16(); }
const unsigned *cget16_R21(const R21 &r) { return &r.get_f16(); }
void setc17_R21(R21 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R21(R21 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R21(R21 &r) { return &r.get_f17(); }
const unsigned *cget17_R21(const R21 &r) { return &r.get_f17(); }
void setc18_R21(R21 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R21(R21 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R21(R21 &r) { return &r.get_f18(); }
const unsigned *cget18_R21(const R21 &r) { return &r.get_f18(); }
void setc19_R21(R21 &r, const unsigned &v) { r.set_f19(v); }
void setm19_R21(R21 &r, unsigned &v) { r.set_f19(std::move(v)); }
unsigned *get19_R21(R21 &r) { return &r.get_f19(); }
const unsigned *cget19_R21(const R21 &r) { return &r.get_f19(); }
void setc20_R21(R21 &r, const unsigned &v) { r.set_f20(v); }
void setm20_R21(R21 &r, unsigned &v) { r.set_f20(std::move(v)); }
unsigned *get20_R21(R21 &r) { return &r.get_f20(); }
const unsigned *cget20_R21(const R21 &r) { return &r.get_f20(); }
void json_R21(R21 &r, const J &j) { r.load_from_json(j); }
void new21_R22(R22 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20) { new (at) R22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20); }
void new22_R22(R22 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21) { new (at) R22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21); }
void all21_R22(R22 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20); }
void all22_R22(R22 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21); }
bool eq_R22(const R22 &a, const R22 &b) { return a == b; }
bool ne_R22(const R22 &a, const R22 &b) { return a != b; }
bool lt_R22(const R22 &a, const R22 &b) { return a < b; }
void tie_R22(R22 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); }
void ctie_R22(const R22 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); }
void setc0_R22(R22 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R22(R22 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R22(R22 &r) { return &r.get_f0(); }
const unsigned *cget0_R22(const R22 &r) { return &r.get_f0(); }
void setc1_R22(R22 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R22(R22 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R22(R22 &r) { return &r.get_f1(); }
const unsigned *cget1_R22(const R22 &r) { return &r.get_f1(); }
void setc2_R22(R22 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R22(R22 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R22(R22 &r) { return &r.get_f2(); }
const unsigned *cget2_R22(const R22 &r) { return &r.get_f2(); }
void setc3_R22(R22 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R22(R22 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R22(R22 &r) { return &r.get_f3(); }
const unsigned *cget3_R22(const R22 &r) { return &r.get_f3(); }
void setc4_R22(R22 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R22(R22 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R22(R22 &r) { return &r.get_f4(); }
const unsigned *cget4_R22(const R22 &r) { return &r.get_f4(); }
void setc5_R22(R22 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R22(R22 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R22(R22 &r) { return &r.get_f5(); }
const unsigned *cget5_R22(const R22 &r) { return &r.get_f5(); }
void setc6_R22(R22 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R22(R22 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R22(R22 &r) { return &r.get_f6(); }
const unsigned *cget6_R22(const R22 &r) { return &r.get_f6(); }
void setc7_R22(R22 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R22(R22 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R22(R22 &r) { return &r.get_f7(); }
const unsigned *cget7_R22(const R22 &r) { return &r.get_f7(); }
void setc8_R22(R22 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R22(R22 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R22(R22 &r) { return &r.get_f8(); }
const unsigned *cget8_R22(const R22 &r) { return &r.get_f8(); }
void setc9_R22(R22 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R22(R22 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R22(R22 &r) { return &r.get_f9(); }
const unsigned *cget9_R22(const R22 &r) { return &r.get_f9(); }
void setc10_R22(R22 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R22(R22 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R22(R22 &r) { return &r.get_f10(); }
const unsigned *cget10_R22(const R22 &r) { return &r.get_f10(); }
void setc11_R22(R22 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R22(R22 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R22(R22 &r) { return &r.get_f11(); }
const unsigned *cget11_R22(const R22 &r) { return &r.get_f11(); }
void setc12_R22(R22 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R22(R22 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R22(R22 &r) { return &r.get_f12(); }
const unsigned *cget12_R22(const R22 &r) { return &r.get_f12(); }
void setc13_R22(R22 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R22(R22 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R22(R22 &r) { return &r.get_f13(); }
const unsigned *cget13_R22(const R22 &r) { return &r.get_f13(); }
void setc14_R22(R22 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R22(R22 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R22(R22 &r) { return &r.get_f14(); }
const unsigned *cget14_R22(const R22 &r) { return &r.get_f14(); }
void setc15_R22(R22 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R22(R22 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R22(R22 &r) { return &r.get_f15(); }
const unsigned *cget15_R22(const R22 &r) { return &r.get_f15(); }
void setc16_R22(R22 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R22(R22 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R22(R22 &r) { return &r.get_f16(); }
const unsigned *cget16_R22(const R22 &r) { return &r.get_f16(); }
void setc17_R22(R22 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R22(R22 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R22(R22 &r) { return &r.get_f17(); }
const unsigned *cget17_R22(const R22 &r) { return &r.get_f17(); }
void setc18_R22(R22 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R22(R22 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R22(R22 &r) { return &r.get_f18(); }
const unsigned *cget18_R22(const R22 &r) { return &r.get_f18(); }
void setc19_R22(R22 &r, const unsigned &v) { r.set_f19(v); }
void setm19_R22(R22 &r, unsigned &v) { r.set_f19(std::move(v)); }
unsigned *get19_R22(R22 &r) { return &r.get_f19(); }
const unsigned *cget19_R22(const R22 &r) { return &r.get_f19(); }
void setc20_R22(R22 &r, const unsigned &v) { r.set_f20(v); }
void setm20_R22(R22 &r, unsigned &v) { r.set_f20(std::move(v)); }
unsigned *get20_R22(R22 &r) { return &r.get_f20(); }
const unsigned *cget20_R22(const R22 &r) { return &r.get_f20(); }
void setc21_R22(R22 &r, const unsigned &v) { r.set_f21(v); }
void setm21_R22(R22 &r, unsigned &v) { r.set_f21(std::move(v)); }
unsigned *get21_R22(R22 &r) { return &r.get_f21(); }
const unsigned *cget21_R22(const R22 &r) { return &r.get_f21(); }
void json_R22(R22 &r, const J &j) { r.load_from_json(j); }
void new22_R23(R23 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21) { new (at) R23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21); }
void new23_R23(R23 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22) { new (at) R23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22); }
void all22_R23(R23 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21); }
void all23_R23(R23 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22); }
bool eq_R23(const R23 &a, const R23 &b) { return a == b; }
bool ne_R23(const R23 &a, const R23 &b) { return a != b; }
bool lt_R23(const R23 &a, const R23 &b) { return a < b; }
void tie_R23(R23 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); p[22] = &std::get<22>(t); }
void ctie_R23(const R23 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); p[22] = &std::get<22>(t); }
void setc0_R23(R23 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R23(R23 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R23(R23 &r) { return &r.get_f0(); }
const unsigned *cget0_R23(const R23 &r) { return &r.get_f0(); }
void setc1_R23(R23 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R23(R23 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R23(R23 &r) { return &r.get_f1(); }
const unsigned *cget1_R23(const R23 &r) { return &r.get_f1(); }
void setc2_R23(R23 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R23(R23 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R23(R23 &r) { return &r.get_f2(); }
const unsigned *cget2_R23(const R23 &r) { return &r.get_f2(); }
void setc3_R23(R23 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R23(R23 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R23(R23 &r) { return &r.get_f3(); }
const unsigned *cget3_R23(const R23 &r) { return &r.get_f3(); }
void setc4_R23(R23 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R23(R23 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R23(R23 &r) { return &r.get_f4(); }
const unsigned *cget4_R23(const R23 &r) { return &r.get_f4(); }
void setc5_R23(R23 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R23(R23 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R23(R23 &r) { return &r.get_f5(); }
const unsigned *cget5_R23(const R23 &r) { return &r.get_f5(); }
void setc6_R23(R23 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R23(R23 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R23(R23 &r) { return &r.get_f6(); }
const unsigned *cget6_R23(const R23 &r) { return &r.get_f6(); }
void setc7_R23(R23 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R23(R23 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R23(R23 &r) { return &r.get_f7(); }
const unsigned *cget7_R23(const R23 &r) { return &r.get_f7(); }
void setc8_R23(R23 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R23(R23 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R23(R23 &r) { return &r.get_f8(); }
const unsigned *cget8_R23(const R23 &r) { return &r.get_f8(); }
void setc9_R23(R23 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R23(R23 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R23(R23 &r) { return &r.get_f9(); }
const unsigned *cget9_R23(const R23 &r) { return &r.get_f9(); }
void setc10_R23(R23 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R23(R23 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R23(R23 &r) { return &r.get_f10(); }
const unsigned *cget10_R23(const R23 &r) { return &r.get_f10(); }
void setc11_R23(R23 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R23(R23 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R23(R23 &r) { return &r.get_f11(); }
const unsigned *cget11_R23(const R23 &r) { return &r.get_f11(); }
void setc12_R23(R23 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R23(R23 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R23(R23 &r) { return &r.get_f12(); }
const unsigned *cget12_R23(const R23 &r) { return &r.get_f12(); }
void setc13_R23(R23 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R23(R23 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R23(R23 &r) { return &r.get_f13(); }
const unsigned *cget13_R23(const R23 &r) { return &r.get_f13(); }
void setc14_R23(R23 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R23(R23 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R23(R23 &r) { return &r.get_f14(); }
const unsigned *cget14_R23(const R23 &r) { return &r.get_f14(); }
void setc15_R23(R23 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R23(R23 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R23(R23 &r) { return &r.get_f15(); }
const unsigned *cget15_R23(const R23 &r) { return &r.get_f15(); }
void setc16_R23(R23 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R23(R23 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R23(R23 &r) { return &r.get_f16(); }
const unsigned *cget16_R23(const R23 &r) { return &r.get_f16(); }
void setc17_R23(R23 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R23(R23 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R23(R23 &r) { return &r.get_f17(); }
const unsigned *cget17_R23(const R23 &r) { return &r.get_f17(); }
void setc18_R23(R23 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R23(R23 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R23(R23 &r) { return &r.get_f18(); }
const unsigned *cget18_R23(const R23 &r) { return &r.get_f18(); }
void setc19_R23(R23 &r, const unsigned &v) { r.set_f19(v); }
void setm19_R23(R23 &r, unsigned &v) { r.set_f19(std::move(v)); }
unsigned *get19_R23(R23 &r) { return &r.get_f19(); }
const unsigned *cget19_R23(const R23 &r) { return &r.get_f19(); }
void setc20_R23(R23 &r, const unsigned &v) { r.set_f20(v); }
void setm20_R23(R23 &r, unsigned &v) { r.set_f20(std::move(v)); }
unsigned *get20_R23(R23 &r) { return &r.get_f20(); }
const unsigned *cget20_R23(const R23 &r) { return &r.get_f20(); }
void setc21_R23(R23 &r, const unsigned &v) { r.set_f21(v); }
void setm21_R23(R23 &r, unsigned &v) { r.set_f21(std::move(v)); }
unsigned *get21_R23(R23 &r) { return &r.get_f21(); }
const unsigned *cget21_R23(const R23 &r) { return &r.get_f21(); }
void setc22_R23(R23 &r, const unsigned &v) { r.set_f22(v); }
void setm22_R23(R23 &r, unsigned &v) { r.set_f22(std::move(v)); }
unsigned *get22_R23(R23 &r) { return &r.get_f22(); }
const unsigned *cget22_R23(const R23 &r) { return &r.get_f22(); }
void json_R23(R23 &r, const J &j) { r.load_from_json(j); }
void new23_R24(R24 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22) { new (at) R24(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22); }
void new24_R24(R24 *at, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23) { new (at) R24(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23); }
void all23_R24(R24 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22); }
void all24_R24(R24 &r, unsigned &a0, unsigned &a1, unsigned &a2, unsigned &a3, unsigned &a4, unsigned &a5, unsigned &a6, unsigned &a7, unsigned &a8, unsigned &a9, unsigned &a10, unsigned &a11, unsigned &a12, unsigned &a13, unsigned &a14, unsigned &a15, unsigned &a16, unsigned &a17, unsigned &a18, unsigned &a19, unsigned &a20, unsigned &a21, unsigned &a22, unsigned &a23) { r.set_all(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23); }
bool eq_R24(const R24 &a, const R24 &b) { return a == b; }
bool ne_R24(const R24 &a, const R24 &b) { return a != b; }
bool lt_R24(const R24 &a, const R24 &b) { return a < b; }
void tie_R24(R24 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); p[22] = &std::get<22>(t); p[23] = &std::get<23>(t); }
void ctie_R24(const R24 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); p[2] = &std::get<2>(t); p[3] = &std::get<3>(t); p[4] = &std::get<4>(t); p[5] = &std::get<5>(t); p[6] = &std::get<6>(t); p[7] = &std::get<7>(t); p[8] = &std::get<8>(t); p[9] = &std::get<9>(t); p[10] = &std::get<10>(t); p[11] = &std::get<11>(t); p[12] = &std::get<12>(t); p[13] = &std::get<13>(t); p[14] = &std::get<14>(t); p[15] = &std::get<15>(t); p[16] = &std::get<16>(t); p[17] = &std::get<17>(t); p[18] = &std::get<18>(t); p[19] = &std::get<19>(t); p[20] = &std::get<20>(t); p[21] = &std::get<21>(t); p[22] = &std::get<22>(t); p[23] = &std::get<23>(t); }
void setc0_R24(R24 &r, const unsigned &v) { r.set_f0(v); }
void setm0_R24(R24 &r, unsigned &v) { r.set_f0(std::move(v)); }
unsigned *get0_R24(R24 &r) { return &r.get_f0(); }
const unsigned *cget0_R24(const R24 &r) { return &r.get_f0(); }
void setc1_R24(R24 &r, const unsigned &v) { r.set_f1(v); }
void setm1_R24(R24 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_R24(R24 &r) { return &r.get_f1(); }
const unsigned *cget1_R24(const R24 &r) { return &r.get_f1(); }
void setc2_R24(R24 &r, const unsigned &v) { r.set_f2(v); }
void setm2_R24(R24 &r, unsigned &v) { r.set_f2(std::move(v)); }
unsigned *get2_R24(R24 &r) { return &r.get_f2(); }
const unsigned *cget2_R24(const R24 &r) { return &r.get_f2(); }
void setc3_R24(R24 &r, const unsigned &v) { r.set_f3(v); }
void setm3_R24(R24 &r, unsigned &v) { r.set_f3(std::move(v)); }
unsigned *get3_R24(R24 &r) { return &r.get_f3(); }
const unsigned *cget3_R24(const R24 &r) { return &r.get_f3(); }
void setc4_R24(R24 &r, const unsigned &v) { r.set_f4(v); }
void setm4_R24(R24 &r, unsigned &v) { r.set_f4(std::move(v)); }
unsigned *get4_R24(R24 &r) { return &r.get_f4(); }
const unsigned *cget4_R24(const R24 &r) { return &r.get_f4(); }
void setc5_R24(R24 &r, const unsigned &v) { r.set_f5(v); }
void setm5_R24(R24 &r, unsigned &v) { r.set_f5(std::move(v)); }
unsigned *get5_R24(R24 &r) { return &r.get_f5(); }
const unsigned *cget5_R24(const R24 &r) { return &r.get_f5(); }
void setc6_R24(R24 &r, const unsigned &v) { r.set_f6(v); }
void setm6_R24(R24 &r, unsigned &v) { r.set_f6(std::move(v)); }
unsigned *get6_R24(R24 &r) { return &r.get_f6(); }
const unsigned *cget6_R24(const R24 &r) { return &r.get_f6(); }
void setc7_R24(R24 &r, const unsigned &v) { r.set_f7(v); }
void setm7_R24(R24 &r, unsigned &v) { r.set_f7(std::move(v)); }
unsigned *get7_R24(R24 &r) { return &r.get_f7(); }
const unsigned *cget7_R24(const R24 &r) { return &r.get_f7(); }
void setc8_R24(R24 &r, const unsigned &v) { r.set_f8(v); }
void setm8_R24(R24 &r, unsigned &v) { r.set_f8(std::move(v)); }
unsigned *get8_R24(R24 &r) { return &r.get_f8(); }
const unsigned *cget8_R24(const R24 &r) { return &r.get_f8(); }
void setc9_R24(R24 &r, const unsigned &v) { r.set_f9(v); }
void setm9_R24(R24 &r, unsigned &v) { r.set_f9(std::move(v)); }
unsigned *get9_R24(R24 &r) { return &r.get_f9(); }
const unsigned *cget9_R24(const R24 &r) { return &r.get_f9(); }
void setc10_R24(R24 &r, const unsigned &v) { r.set_f10(v); }
void setm10_R24(R24 &r, unsigned &v) { r.set_f10(std::move(v)); }
unsigned *get10_R24(R24 &r) { return &r.get_f10(); }
const unsigned *cget10_R24(const R24 &r) { return &r.get_f10(); }
void setc11_R24(R24 &r, const unsigned &v) { r.set_f11(v); }
void setm11_R24(R24 &r, unsigned &v) { r.set_f11(std::move(v)); }
unsigned *get11_R24(R24 &r) { return &r.get_f11(); }
const unsigned *cget11_R24(const R24 &r) { return &r.get_f11(); }
void setc12_R24(R24 &r, const unsigned &v) { r.set_f12(v); }
void setm12_R24(R24 &r, unsigned &v) { r.set_f12(std::move(v)); }
unsigned *get12_R24(R24 &r) { return &r.get_f12(); }
const unsigned *cget12_R24(const R24 &r) { return &r.get_f12(); }
void setc13_R24(R24 &r, const unsigned &v) { r.set_f13(v); }
void setm13_R24(R24 &r, unsigned &v) { r.set_f13(std::move(v)); }
unsigned *get13_R24(R24 &r) { return &r.get_f13(); }
const unsigned *cget13_R24(const R24 &r) { return &r.get_f13(); }
void setc14_R24(R24 &r, const unsigned &v) { r.set_f14(v); }
void setm14_R24(R24 &r, unsigned &v) { r.set_f14(std::move(v)); }
unsigned *get14_R24(R24 &r) { return &r.get_f14(); }
const unsigned *cget14_R24(const R24 &r) { return &r.get_f14(); }
void setc15_R24(R24 &r, const unsigned &v) { r.set_f15(v); }
void setm15_R24(R24 &r, unsigned &v) { r.set_f15(std::move(v)); }
unsigned *get15_R24(R24 &r) { return &r.get_f15(); }
const unsigned *cget15_R24(const R24 &r) { return &r.get_f15(); }
void setc16_R24(R24 &r, const unsigned &v) { r.set_f16(v); }
void setm16_R24(R24 &r, unsigned &v) { r.set_f16(std::move(v)); }
unsigned *get16_R24(R24 &r) { return &r.get_f16(); }
const unsigned *cget16_R24(const R24 &r) { return &r.get_f16(); }
void setc17_R24(R24 &r, const unsigned &v) { r.set_f17(v); }
void setm17_R24(R24 &r, unsigned &v) { r.set_f17(std::move(v)); }
unsigned *get17_R24(R24 &r) { return &r.get_f17(); }
const unsigned *cget17_R24(const R24 &r) { return &r.get_f17(); }
void setc18_R24(R24 &r, const unsigned &v) { r.set_f18(v); }
void setm18_R24(R24 &r, unsigned &v) { r.set_f18(std::move(v)); }
unsigned *get18_R24(R24 &r) { return &r.get_f18(); }
const unsigned *cget18_R24(const R24 &r) { return &r.get_f18(); }
void setc19_R24(R24 &r, const unsigned &v) { r.set_f19(v); }
void setm19_R24(R24 &r, unsigned &v) { r.set_f19(std::move(v)); }
unsigned *get19_R24(R24 &r) { return &r.get_f19(); }
const unsigned *cget19_R24(const R24 &r) { return &r.get_f19(); }
void setc20_R24(R24 &r, const unsigned &v) { r.set_f20(v); }
void setm20_R24(R24 &r, unsigned &v) { r.set_f20(std::move(v)); }
unsigned *get20_R24(R24 &r) { return &r.get_f20(); }
const unsigned *cget20_R24(const R24 &r) { return &r.get_f20(); }
void setc21_R24(R24 &r, const unsigned &v) { r.set_f21(v); }
void setm21_R24(R24 &r, unsigned &v) { r.set_f21(std::move(v)); }
unsigned *get21_R24(R24 &r) { return &r.get_f21(); }
const unsigned *cget21_R24(const R24 &r) { return &r.get_f21(); }
void setc22_R24(R24 &r, const unsigned &v) { r.set_f22(v); }
void setm22_R24(R24 &r, unsigned &v) { r.set_f22(std::move(v)); }
unsigned *get22_R24(R24 &r) { return &r.get_f22(); }
const unsigned *cget22_R24(const R24 &r) { return &r.get_f22(); }
void setc23_R24(R24 &r, const unsigned &v) { r.set_f23(v); }
void setm23_R24(R24 &r, unsigned &v) { r.set_f23(std::move(v)); }
unsigned *get23_R24(R24 &r) { return &r.get_f23(); }
const unsigned *cget23_R24(const R24 &r) { return &r.get_f23(); }
void json_R24(R24 &r, const J &j) { r.load_from_json(j); }
void new0_C1(C1 *at) { new (at) C1(); }
void new1_C1(C1 *at, Opaque &a0) { new (at) C1(a0); }
void new2_C1(C1 *at, Opaque &a0, OpaqueB &a1) { new (at) C1(a0, a1); }
void all0_C1(C1 &r) { r.set_all(); }
void all1_C1(C1 &r, Opaque &a0) { r.set_all(a0); }
void all2_C1(C1 &r, Opaque &a0, OpaqueB &a1) { r.set_all(a0, a1); }
bool eq_C1(const C1 &a, const C1 &b) { return a == b; }
bool ne_C1(const C1 &a, const C1 &b) { return a != b; }
bool lt_C1(const C1 &a, const C1 &b) { return a < b; }
void tie_C1(C1 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void ctie_C1(const C1 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void setc0_C1(C1 &r, const Opaque &v) { r.set_f0(v); }
void setm0_C1(C1 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_C1(C1 &r) { return &r.get_f0(); }
const Opaque *cget0_C1(const C1 &r) { return &r.get_f0(); }
void setc1_C1(C1 &r, const OpaqueB &v) { r.set_f1(v); }
void setm1_C1(C1 &r, OpaqueB &v) { r.set_f1(std::move(v)); }
OpaqueB *get1_C1(C1 &r) { return &r.get_f1(); }
const OpaqueB *cget1_C1(const C1 &r) { return &r.get_f1(); }
void json_C1(C1 &r, const J &j) { r.load_from_json(j); }
void jstr_C1(C1 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_C1(C1 *at, const C1 &o) { new (at) C1(o); }
void move_C1(C1 *at, C1 &o) { new (at) C1(std::move(o)); }
void asg_C1(C1 &a, const C1 &o) { a = o; }
void new0_C2(C2 *at) { new (at) C2(); }
void new1_C2(C2 *at, Opaque &a0) { new (at) C2(a0); }
void all0_C2(C2 &r) { r.set_all(); }
void all1_C2(C2 &r, Opaque &a0) { r.set_all(a0); }
bool eq_C2(const C2 &a, const C2 &b) { return a == b; }
bool ne_C2(const C2 &a, const C2 &b) { return a != b; }
bool lt_C2(const C2 &a, const C2 &b) { return a < b; }
void tie_C2(C2 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); }
void ctie_C2(const C2 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); }
void setc0_C2(C2 &r, const Opaque &v) { r.set_f0(v); }
void setm0_C2(C2 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_C2(C2 &r) { return &r.get_f0(); }
const Opaque *cget0_C2(const C2 &r) { return &r.get_f0(); }
void json_C2(C2 &r, const J &j) { r.load_from_json(j); }
void jstr_C2(C2 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_C2(C2 *at, const C2 &o) { new (at) C2(o); }
void move_C2(C2 *at, C2 &o) { new (at) C2(std::move(o)); }
void asg_C2(C2 &a, const C2 &o) { a = o; }
void new0_C3(C3 *at) { new (at) C3(); }
void new1_C3(C3 *at, Opaque &a0) { new (at) C3(a0); }
void new2_C3(C3 *at, Opaque &a0, Opaque &a1) { new (at) C3(a0, a1); }
void all0_C3(C3 &r) { r.set_all(); }
void all1_C3(C3 &r, Opaque &a0) { r.set_all(a0); }
void all2_C3(C3 &r, Opaque &a0, Opaque &a1) { r.set_all(a0, a1); }
bool eq_C3(const C3 &a, const C3 &b) { return a == b; }
bool ne_C3(const C3 &a, const C3 &b) { return a != b; }
bool lt_C3(const C3 &a, const C3 &b) { return a < b; }
void tie_C3(C3 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void ctie_C3(const C3 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void setc0_C3(C3 &r, const Opaque &v) { r.set_f0(v); }
void setm0_C3(C3 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_C3(C3 &r) { return &r.get_f0(); }
const Opaque *cget0_C3(const C3 &r) { return &r.get_f0(); }
void setc1_C3(C3 &r, const Opaque &v) { r.set_f1(v); }
void setm1_C3(C3 &r, Opaque &v) { r.set_f1(std::move(v)); }
Opaque *get1_C3(C3 &r) { return &r.get_f1(); }
const Opaque *cget1_C3(const C3 &r) { return &r.get_f1(); }
void json_C3(C3 &r, const J &j) { r.load_from_json(j); }
void jstr_C3(C3 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_C3(C3 *at, const C3 &o) { new (at) C3(o); }
void move_C3(C3 *at, C3 &o) { new (at) C3(std::move(o)); }
void asg_C3(C3 &a, const C3 &o) { a = o; }
void new0_C4(C4 *at) { new (at) C4(); }
void new1_C4(C4 *at, Opaque &a0) { new (at) C4(a0); }
void new2_C4(C4 *at, Opaque &a0, unsigned &a1) { new (at) C4(a0, a1); }
void all0_C4(C4 &r) { r.set_all(); }
void all1_C4(C4 &r, Opaque &a0) { r.set_all(a0); }
void all2_C4(C4 &r, Opaque &a0, unsigned &a1) { r.set_all(a0, a1); }
bool eq_C4(const C4 &a, const C4 &b) { return a == b; }
bool ne_C4(const C4 &a, const C4 &b) { return a != b; }
bool lt_C4(const C4 &a, const C4 &b) { return a < b; }
void tie_C4(C4 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void ctie_C4(const C4 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void setc0_C4(C4 &r, const Opaque &v) { r.set_f0(v); }
void setm0_C4(C4 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_C4(C4 &r) { return &r.get_f0(); }
const Opaque *cget0_C4(const C4 &r) { return &r.get_f0(); }
void setc1_C4(C4 &r, const unsigned &v) { r.set_f1(v); }
void setm1_C4(C4 &r, unsigned &v) { r.set_f1(std::move(v)); }
unsigned *get1_C4(C4 &r) { return &r.get_f1(); }
const unsigned *cget1_C4(const C4 &r) { return &r.get_f1(); }
void json_C4(C4 &r, const J &j) { r.load_from_json(j); }
void jstr_C4(C4 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_C4(C4 *at, const C4 &o) { new (at) C4(o); }
void move_C4(C4 *at, C4 &o) { new (at) C4(std::move(o)); }
void asg_C4(C4 &a, const C4 &o) { a = o; }
void new0_C5(C5 *at) { new (at) C5(); }
void new1_C5(C5 *at, Opaque &a0) { new (at) C5(a0); }
void new2_C5(C5 *at, Opaque &a0, OpaqueB &a1) { new (at) C5(a0, a1); }
void all0_C5(C5 &r) { r.set_all(); }
void all1_C5(C5 &r, Opaque &a0) { r.set_all(a0); }
void all2_C5(C5 &r, Opaque &a0, OpaqueB &a1) { r.set_all(a0, a1); }
bool eq_C5(const C5 &a, const C5 &b) { return a == b; }
bool ne_C5(const C5 &a, const C5 &b) { return a != b; }
bool lt_C5(const C5 &a, const C5 &b) { return a < b; }
void tie_C5(C5 &r, void **p) { auto t = r.as_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void ctie_C5(const C5 &r, const void **p) { auto t = r.cas_tuple(); p[0] = &std::get<0>(t); p[1] = &std::get<1>(t); }
void setc0_C5(C5 &r, const Opaque &v) { r.set_f0(v); }
void setm0_C5(C5 &r, Opaque &v) { r.set_f0(std::move(v)); }
Opaque *get0_C5(C5 &r) { return &r.get_f0(); }
const Opaque *cget0_C5(const C5 &r) { return &r.get_f0(); }
void setc1_C5(C5 &r, const OpaqueB &v) { r.set_f1(v); }
void setm1_C5(C5 &r, OpaqueB &v) { r.set_f1(std::move(v)); }
OpaqueB *get1_C5(C5 &r) { return &r.get_f1(); }
const OpaqueB *cget1_C5(const C5 &r) { return &r.get_f1(); }
void json_C5(C5 &r, const J &j) { r.load_from_json(j); }
void jstr_C5(C5 &r, const std::string &s) { r.load_from_json_str<J>(s); }
void copy_C5(C5 *at, const C5 &o) { new (at) C5(o); }
void move_C5(C5 *at, C5 &o) { new (at) C5(std::move(o)); }
void asg_C5(C5 &a, const C5 &o) { a = o; }
void make_C1(std::shared_ptr<C1> *at, Opaque &a0, OpaqueB &a1) { new (at) std::shared_ptr<C1>(lamp_service::switch_on_request::make_input(a0, a1)); }
void make_C2(std::shared_ptr<C2> *at, Opaque &a0) { new (at) std::shared_ptr<C2>(lamp_service::switch_on_request::make_output(a0)); }
void make_C3(std::shared_ptr<C3> *at, Opaque &a0, Opaque &a1) { new (at) std::shared_ptr<C3>(lamp_service::switch_on_request::make_error(a0, a1)); }
void make_C4(std::shared_ptr<C4> *at, Opaque &a0, unsigned &a1) { new (at) std::shared_ptr<C4>(lamp_service::brightness_property::make_status(a0, a1)); }
void make_C5(std::shared_ptr<C5> *at, Opaque &a0, OpaqueB &a1) { new (at) std::shared_ptr<C5>(lamp_service::blown_signal::make_attributes(a0, a1)); }
const char *id0() { return lamp_service::switch_on_request::operationID(); }
const char *id1() { return lamp_service::switch_on_request::input::operationID(); }
const char *id2() { return lamp_service::switch_on_request::output::operationID(); }
const char *id3() { return lamp_service::switch_on_request::error::operationID(); }
const char *id4() { return lamp_service::switch_off_request::operationID(); }
const char *id5() { return lamp_service::switch_off_request::input::operationID(); }
const char *id6() { return lamp_service::switch_off_request::output::operationID(); }
const char *id7() { return lamp_service::reset_request::operationID(); }
const char *id8() { return lamp_service::brightness_property::operationID(); }
const char *id9() { return lamp_service::brightness_property::status::operationID(); }
const char *id10() { return lamp_service::switch_on_property::operationID(); }
const char *id11() { return lamp_service::switch_on_property::status::operationID(); }
const char *id12() { return lamp_service::blown_signal::operationID(); }
const char *id13() { return lamp_service::blown_signal::attributes::operationID(); }
const char *id14() { return lamp_service::switch_on_signal::operationID(); }
const char *id15() { return lamp_service::dimmed_signal::operationID(); }
}
