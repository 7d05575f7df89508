// Instantiations of the observable and atomic-object templates put under contract
#include <maf/utils/Observable.h>
#include <maf/threading/Lockable.h>
#include <maf/threading/Locker.h>
#include <maf/threading/MutexRef.h>
using namespace maf::signal_slots;
namespace d = maf::signal_slots::details;
struct Opaque {
  Opaque(); Opaque(const Opaque&); Opaque(Opaque&&) noexcept; Opaque& operator=(const Opaque&); Opaque& operator=(Opaque&&) noexcept; ~Opaque();
  bool operator==(const Opaque&) const; bool operator!=(const Opaque&) const; bool operator<(const Opaque&) const; long v;
};
template class d::StateBasedSlotKeeper<d::MultiSlotKeeper, int>;
template class d::StateBasedSlotKeeper<d::MultiSlotKeeper, Opaque, int>;
template class d::StateBasedSlotKeeper<d::SingleSlotKeeper, int>;
using O1 = Observable<int>;
using O2 = Observable<Opaque, int>;
using AO = maf::threading::AtomicObject<Opaque, std::mutex>;
using LO = maf::threading::Lockable<Opaque, std::mutex>;
// observables of one state
void o1_set(O1& o, const int& v) { o.set(v); }
int o1_get(const O1& o) { return o.get(); }
int o1_conv(const O1& o) { return static_cast<int>(static_cast<const d::SingleStateObservableBasic_<O1::SlotsKeeperType, int>&>(o)); }
void o1_assign(O1& o, const int& v) { static_cast<d::SingleStateObservableBasic_<O1::SlotsKeeperType, int>&>(o) = v; }
int o1_add(O1& o, int v) { return o += v; }
int o1_sub(O1& o, int v) { return o -= v; }
int o1_op_mul(O1& o, const int& v) { return o *= v; }
int o1_op_sdiv(O1& o, const int& v) { return o /= v; }
int o1_op_srem(O1& o, const int& v) { return o %= v; }
int o1_op_or(O1& o, const int& v) { return o |= v; }
int o1_op_and(O1& o, const int& v) { return o &= v; }
int o1_op_xor(O1& o, const int& v) { return o ^= v; }
int o1_op_shl(O1& o, const int& v) { return o <<= v; }
int o1_op_ashr(O1& o, const int& v) { return o >>= v; }
int o1_pre(O1& o) { return ++o; }
int o1_post(O1& o) { return o++; }
void o1_mut(O1& o, int v) { auto r = o.mutable_(); *r = v; }
void o1_mut_keep(O1& o) { auto r = o.mutable_(); }
void o1_silent(O1& o, int v) { auto r = o.silentMutable(); *r = v; }
int o1_imm(const O1& o) { auto r = o.immutable(); return *r; }
d::Connection o1_connect(O1& o, std::function<void(const int&)> f) { return o.connect(std::move(f)); }
d::Connection o1_silent_connect(O1& o, std::function<void(const int&)> f) { return o.silentlyConnect(std::move(f)); }
d::Connection o1_const_connect(const O1& o, std::function<void(const int&)> f) { return o.connect(std::move(f)); }
// an observable made from values holds them
bool o1_made(int v) { int k = v; O1 o(std::move(v)); return o.get() == k; }
bool o2_made(Opaque& a, int b) { Opaque k(a); int kb = b; O2 o(std::move(a), std::move(b)); return o.get<0>() == k && o.get<1>() == kb; }
bool o1_blank() { O1 o; return o.get() == 0; }
// observables of several states
void o2_set(O2& o, const Opaque& a, const int& b) { o.set(a, b); }
void o2_set0(O2& o, const Opaque& a) { o.set<0>(a); }
void o2_set1(O2& o, const int& b) { o.set<1>(b); }
void o2_set10(O2& o, const int& b, const Opaque& a) { o.set<1, 0>(b, a); }
void o2_silent(O2& o, const Opaque& a, const int& b) { o.silentSet(a, b); }
void o2_silent1(O2& o, const int& b) { o.silentSet<1>(b); }
void o2_get(const O2& o, O2::State* s) { new (s) O2::State(o.get()); }
void o2_get0(const O2& o, Opaque* s) { new (s) Opaque(o.get<0>()); }
int o2_get1(const O2& o) { return o.get<1>(); }
void o2_assign(O2& o, const O2::State& s) { o = s; }
void o2_mut0(O2& o, const Opaque& a) { auto r = o.mutable_<0>(); *r = a; }
void o2_mut(O2& o, const Opaque& a, const int& b) { auto r = o.mutable_(); std::get<0>(*r) = a; std::get<1>(*r) = b; }
d::Connection o2_connect(O2& o, std::function<void(const Opaque&, const int&)> f) { return o.connect(std::move(f)); }
// atomic objects
void ao_arrow_make(AO::RefType* r, AO& a) { new (r) AO::RefType(a.operator->()); }
void ao_star_make(AO::RefType* r, AO& a) { new (r) AO::RefType(*a); }
void ao_atomic_make(AO::RefType* r, AO& a) { new (r) AO::RefType(a.atomic()); }
void ao_carrow_make(AO::CRefType* r, const AO& a) { new (r) AO::CRefType(a.operator->()); }
void ao_cstar_make(AO::CRefType* r, const AO& a) { new (r) AO::CRefType(*a); }
void ao_catomic_make(AO::CRefType* r, const AO& a) { new (r) AO::CRefType(a.atomic()); }
void ao_assign(AO& a, const Opaque& v) { a = v; }
void ao_assign_move(AO& a, Opaque& v) { a = std::move(v); }
void ao_ctor(AO::RefType* r, AO& a) { new (r) AO::RefType(&a); }
void ao_dtor(AO::RefType* r) { r->~AtomicRef_(); }
void ao_move_ctor(AO::RefType* r, AO::RefType& o) { new (r) AO::RefType(std::move(o)); }
void ao_move_assign(AO::RefType& r, AO::RefType& o) { r = std::move(o); }
Opaque* ao_data(AO::RefType& r) { return r.operator->(); }
Opaque* ao_deref(AO::RefType& r) { return &*r; }
void ao_cctor(AO::CRefType* r, const AO& a) { new (r) AO::CRefType(&a); }
void ao_cdtor(AO::CRefType* r) { r->~CAtomicRef_(); }
const Opaque* ao_cderef(AO::CRefType& r) { return &*r; }
const Opaque* ao_cdata(AO::CRefType& r) { return r.operator->(); }
struct Ptr3 { Opaque* get() const { return p; } Opaque* p; };
using AP = maf::threading::AtomicObject<Ptr3, std::mutex>;
void ap_ctor(AP::RefType* r, AP& a) { new (r) AP::RefType(&a); }
void ap_dtor(AP::RefType* r) { r->~AtomicRef_(); }
Opaque* ap_data(AP::RefType& r) { return r.operator->(); }
Opaque* ap_deref(AP::RefType& r) { return &*r; }
// lockables
void lo_ctor(LO::AtomicSession* s, LO& l) { new (s) LO::AtomicSession(l.atomic()); }
void lo_dtor(LO::AtomicSession* s) { s->~AtomicRef(); }
void lo_cctor(LO::CAtomicSession* s, const LO& l) { new (s) LO::CAtomicSession(l.atomic()); }
void lo_cdtor(LO::CAtomicSession* s) { s->~AtomicRef(); }
Opaque* lo_deref(LO::AtomicSession& s) { return &*s; }
Opaque* lo_arrow(LO::AtomicSession& s) { return s.operator->(); }
const Opaque* lo_cderef(LO::CAtomicSession& s) { return &*s; }
void lo_assign(LO& l, const Opaque& v) { l = v; }
bool lo_try(const LO& l) { return l.try_lock(); }
void lo_lock(const LO& l) { l.lock(); }
void lo_unlock(const LO& l) { l.unlock(); }
void lo_assign_move(LO& l, Opaque& v) { l = std::move(v); }
const Opaque* lo_carrow(LO::CAtomicSession& s) { return s.operator->(); }
// mutex references and lock-and-access helpers
using MR = maf::threading::MutexReference<std::mutex>;
using AM = maf::threading::AtomicObject<Opaque, MR>;
void am_ctor(AM::RefType* r, AM& a) { new (r) AM::RefType(&a); }
void am_dtor(AM::RefType* r) { r->~AtomicRef_(); }
bool mr_try(MR& m) { return m.try_lock(); }
using LK = maf::threading::Locker<std::mutex>;
using LKH = decltype(std::declval<LK&>()(std::declval<Opaque&>()));
void lk_ctor(LKH* h, LK& l, Opaque& o) { new (h) LKH(l(o)); }
void lk_dtor(LKH* h) { h->~__Locker(); }
Opaque* lk_arrow(LKH& h) { return h.operator->(); }
Opaque* lk_deref(LKH& h) { return &*h; }
void lk_lock(LK& l) { l.lock(); }
void lk_unlock(LK& l) { l.unlock(); }
bool lk_try(LK& l) { return l.try_lock(); }
// observables composed of others
using OA = Observable<Opaque>;
using CO = CompoundObservable<Opaque, int>;
void co_make(CO* c, OA& a, O1& b) { new (c) CO(a, b); }
void co_make_ex(CO* c, const maf::util::ExecutorIFPtr& e, OA& a, O1& b) { new (c) CO(e, a, b); }
void co_destroy(CO* c) { c->~BasicCompoundObservable_(); }
void co_slot0(std::function<void(const Opaque&)>& f, const Opaque& v) { f(v); }
void co_slot1(std::function<void(const int&)>& f, const int& v) { f(v); }
