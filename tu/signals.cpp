// Instantiations of the signal templates put under contract (nothing here is verified text itself except through the
// repository's templates it instantiates; the maf_* functions only name one library expression each).
#include <maf/utils/SignalSlots.h>
using namespace maf::signal_slots;
namespace d = maf::signal_slots::details;
template class d::MultiSlotKeeper<int>;
template class d::SingleSlotKeeper<int>;
using RM = std::recursive_mutex;
using MK = maf::threading::AtomicObject<d::MultiSlotKeeper<int>, RM>;
using SK = maf::threading::AtomicObject<d::SingleSlotKeeper<int>, RM>;
template class d::BasicSignal_<MK, int>;
template class d::BasicSignal_<SK, int>;

d::Connection maf_connect(Signal<int>& s, std::function<void(const int&)> f) { return s.connect(std::move(f)); }
d::Connection maf_connect_executor(Signal<int>& s, std::function<void(const int&)> f, SlotInvokerPtr e) { return s.connect(std::move(f), std::move(e)); }
d::Connection maf_connect_tracked(Signal<int>& s, std::shared_ptr<void> o, std::function<void(const int&)> f) { return s.connect(std::move(o), std::move(f)); }
d::Connection maf_connect_aware(Signal<int>& s, Signal<int>::ConnectionAwareSlotType f) { return s.connect(std::move(f)); }
d::Connection maf_connect_signal(Signal<int>& s, Signal<int>& o) { return s.connect(o); }
d::Connection maf_sc_connect(SCSignal<int>& s, std::function<void(const int&)> f) { return s.connect(std::move(f)); }
d::Connection maf_shared_sc_connect(SharedMutexSCSignal<int>& s, std::function<void(const int&)> f) { return s.connect(std::move(f)); }
void maf_emit(Signal<int>& s, int v) { s(v); }
void maf_conn_dtor(d::ScopedConnection* c) { c->~ScopedConnection(); }
void maf_conn_move(d::ScopedConnection& a, d::ScopedConnection& b) { a = std::move(b); }
void maf_conn_assign(d::Connection& a, d::Connection& b) { a = std::move(b); }
bool maf_reconnect(d::Connection& c) { return c.reconnect(); }
Signal<int>* maf_new_signal() { return new Signal<int>(); }
SCSignal<int>* maf_new_sc_signal() { return new SCSignal<int>(); }
void maf_conn_ctor(void* p, d::Connection& b) { new (p) d::Connection(std::move(b)); }
void maf_run_job(std::function<void()>& f) { f(); }
