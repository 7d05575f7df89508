// instantiations of the typed operations of processors, for an arbitrary kind of message
#include <maf/messaging/Processor.h>
#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
using namespace maf::messaging;
struct Data {
  long v;
};
void dv_processor(Processor &p, SpecificMsgProcessingCallback<Data> f, EmptyMsgProcessingCallback g, Data d, MsgConnectionGroup &cg) {
  p.connect<Data>(std::move(f));
  p.connect<Data>(std::move(g));
  p.connected<Data>();
  p.post<Data>(d);
  p.waitablePost<Data>(d);
  p.disconnect<Data>();
  this_processor::post<Data>(d);
  this_processor::disconnect<Data>();
  this_processor::connect<Data>(std::move(f));
  cg << p.connect<Data>(std::move(g));
  cg.disconnect();
}
void dv_async_processor(AsyncProcessor &a, AsyncProcessor &b) {
  a.launch();
  a.stopAndWait();
  a.wait();
  a.running();
  a = std::move(b);
  AsyncProcessor c(std::move(a));
}
void dv_routing(ProcessorID id, Data d) {
  routing::post<Data>(id, d);
  routing::postToAll<Data>(d);
  routing::send<Data>(id, d);
  routing::sendToAll<Data>(d);
}

struct Computation { long operator()() const; };
long dv_value(Processor &p, const Computation &f) { return p.waitableExecute(f); }
void dv_async_wait(AsyncProcessor &a, const AsyncProcessor::Timeout &d) { a.wait(d); }
