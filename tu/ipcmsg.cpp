// lemmas about messages between processes, stated over the real message classes
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/itc/ParamTrait.h>
using namespace maf::messaging;
using namespace maf::messaging::ipc::local;
struct Opaque {
  Opaque(); Opaque(const Opaque&); Opaque(Opaque&&); Opaque& operator=(const Opaque&); Opaque& operator=(Opaque&&); ~Opaque();
  bool operator==(const Opaque&) const; long v;
};
template <class OS> void _serialize(OS&, const Opaque&);
template <class IS> bool _deserialize(IS&, Opaque&);
template <class OS> void serialize(OS&, const Opaque&);
using OP = OutgoingPayloadT<Opaque>;
static bool same(const CSMessage& a, const CSMessage& b) {
  return a.serviceID() == b.serviceID() && a.operationID() == b.operationID() && a.operationCode() == b.operationCode() &&
         a.requestID() == b.requestID() && a.sourceAddress() == b.sourceAddress();
}
// a message without payload
bool msg_none(const ServiceID& s, const OpID& o, OpCode c, RequestID r, const Address& a) {
  LocalIPCMessage m{s, o, c, r, nullptr, a};
  auto b = m.toBytes();
  LocalIPCMessage n;
  return n.fromBytes(std::move(b)) && same(m, n) && n.serviceID() == s && n.operationID() == o && n.operationCode() == c &&
         n.requestID() == r && n.sourceAddress() == a && n.payload() && n.payload()->type() == CSPayloadType::IncomingData;
}
// an error
bool msg_error(const LocalIPCMessage& h, const std::string& d, CSErrorCode c) {
  LocalIPCMessage m{h.serviceID(), h.operationID(), h.operationCode(), h.requestID(), std::make_shared<CSError>(d, c), h.sourceAddress()};
  auto b = m.toBytes();
  LocalIPCMessage n;
  if (!n.fromBytes(std::move(b)) || !same(h, n) || !n.payload() || n.payload()->type() != CSPayloadType::Error) return false;
  auto e = static_cast<CSError*>(n.payload().get());
  return e->description() == d && e->code() == c;
}
static bool holds(const CSPayloadIFPtr& p, const std::shared_ptr<Opaque>& x) {
  auto st = TranslationStatus::NoSource;
  auto y = ParamTrait::translate<Opaque>(p, &st);
  return st == TranslationStatus::Success && bool(x) == bool(y) && (!x || *x == *y);
}
// contents: decoded to what was sent, as often as asked
bool msg_content(const LocalIPCMessage& h, const std::shared_ptr<Opaque>& x) {
  LocalIPCMessage m{h.serviceID(), h.operationID(), h.operationCode(), h.requestID(), ParamTrait::translate<Opaque>(x), h.sourceAddress()};
  auto b = m.toBytes();
  LocalIPCMessage n;
  if (!n.fromBytes(std::move(b)) || !same(h, n) || !n.payload() || n.payload()->type() != CSPayloadType::IncomingData) return false;
  return holds(n.payload(), x) && holds(n.payload(), x);
}
// arbitrary bytes are refused or give a message whose payload is there
bool msg_any(maf::srz::Buffer& bytes, LocalIPCMessage& n) {
  bool ok = n.fromBytes(std::move(bytes));
  return !ok || (n.payload() && (n.payload()->type() == CSPayloadType::Error || n.payload()->type() == CSPayloadType::IncomingData));
}
// contents of a message that is not from another process
bool param_local(const std::shared_ptr<Opaque>& x) {
  auto p = ParamTrait::translate<Opaque>(x);
  auto st = TranslationStatus::NoSource;
  auto y = ParamTrait::translate<Opaque>(p, &st);
  return y.get() == x.get() && st == TranslationStatus::Success;
}
bool param_none() {
  auto st = TranslationStatus::Success;
  auto y = ParamTrait::translate<Opaque>(CSPayloadIFPtr{}, &st);
  return !y && st == TranslationStatus::NoSource;
}
bool param_error(const std::string& d, CSErrorCode c) {
  auto st = TranslationStatus::Success;
  auto y = ParamTrait::translate<Opaque>(CSPayloadIFPtr(std::make_shared<CSError>(d, c)), &st);
  return !y && st != TranslationStatus::Success;
}
// a payload that does not hold the expected value
bool param_bad(const std::shared_ptr<maf::srz::IByteStream>& s) {
  auto st = TranslationStatus::NoSource;
  auto y = ParamTrait::translate<Opaque>(CSPayloadIFPtr(std::make_shared<IncomingPayload>(s)), &st);
  bool none = !s && st == TranslationStatus::NoSource && !y;
  return none || (s && (st == TranslationStatus::Success || st == TranslationStatus::SourceCorrupted || (!y && st == TranslationStatus::DestSrcMismatch)));
}
// payload classes
bool payload_equal(const std::shared_ptr<Opaque>& x, const std::shared_ptr<Opaque>& y) {
  OP a(x), b(y);
  return a.equal(&b) == (x && y && *x == *y) && !a.equal(nullptr);
}
bool payload_mixed(const std::shared_ptr<Opaque>& x, const std::string& d, CSErrorCode c, const std::shared_ptr<maf::srz::IByteStream>& s) {
  OP a(x); CSError e(d, c); IncomingPayload i(s);
  return !a.equal(&e) && !e.equal(&a) && !a.equal(&i) && !i.equal(&a) && !e.equal(&i) && !i.equal(&e) && !e.equal(nullptr) && !i.equal(nullptr);
}
bool error_equal(const std::string& d, CSErrorCode c, const std::string& d2, CSErrorCode c2) {
  CSError a(d, c), b(d2, c2);
  return a.equal(&b) == (d == d2 && c == c2);
}
bool error_clone(const std::string& d, CSErrorCode c) {
  CSError a(d, c);
  std::unique_ptr<CSMsgPayloadIF> p(a.clone());
  return p->type() == CSPayloadType::Error && a.equal(p.get()) && static_cast<CSError*>(p.get())->description() == d;
}
bool error_copy(const std::string& d, CSErrorCode c, const std::string& d2, CSErrorCode c2) {
  CSError a(d, c), b(a), k(d2, c2);
  k = b;
  k = *&k;
  a.setDescription(d2);
  return b.description() == d && b.code() == c && k.description() == d && k.code() == c && a.description() == d2;
}
bool error_set(const std::string& d, CSErrorCode c, const std::string& d2, CSErrorCode c2) {
  CSError a(d, c);
  a.setDescription(d2);
  bool ok = a.description() == d2 && a.code() == c;
  a.setCode(c2);
  return ok && a.description() == d2 && a.code() == c2;
}
bool payload_clone(const std::shared_ptr<Opaque>& x) {
  OP a(x);
  std::unique_ptr<CSMsgPayloadIF> p(a.clone());
  return p->type() == CSPayloadType::OutgoingData && static_cast<OP*>(p.get())->content() == x;
}
// setters and getters of a message
bool msg_set(CSMessage& m, const ServiceID& s, const OpID& o, OpCode c, RequestID r, const CSPayloadIFPtr& p, const Address& a) {
  m.setServiceID(s); m.setOperationID(o); m.setOperationCode(c); m.setRequestID(r); m.setPayload(p); m.setSourceAddress(a);
  return m.serviceID() == s && m.operationID() == o && m.operationCode() == c && m.requestID() == r && m.payload() == p && m.sourceAddress() == a;
}
bool msg_copy(const CSMessage& m) {
  CSMessage a(m), b(m), c(std::move(b)), d;
  d = c;
  CSMessage e;
  e = std::move(c);
  return same(a, m) && same(d, m) && same(e, m) && a.payload() == m.payload() && d.payload() == m.payload() && e.payload() == m.payload();
}
bool msg_create(const ServiceID& s, const OpID& o, OpCode c, RequestID r, const CSPayloadIFPtr& p, const Address& a) {
  auto m = createCSMessage<LocalIPCMessage>(s, o, c, r, p, a);
  return m->serviceID() == s && m->operationID() == o && m->operationCode() == c && m->requestID() == r && m->payload() == p && m->sourceAddress() == a;
}
// messages between threads: the contents are handed over themselves
bool itc_content(const std::shared_ptr<Opaque>& x) {
  using T = maf::messaging::itc::ParamTrait;
  auto p = T::translate<Opaque>(x);
  auto st = TranslationStatus::NoSource;
  auto y = T::translate<Opaque>(p, &st);
  return y.get() == x.get() && st == TranslationStatus::Success && bool(p) == bool(x) && (!p || p->type() == CSPayloadType::OutgoingData);
}
bool itc_equal(const std::shared_ptr<Opaque>& x, const std::shared_ptr<Opaque>& y, const std::string& d, CSErrorCode c) {
  using P = maf::messaging::itc::Payload<Opaque>;
  P a(CSPayloadType::OutgoingData, x), b(CSPayloadType::OutgoingData, y), i(CSPayloadType::IncomingData, y);
  CSError e(d, c);
  std::unique_ptr<CSMsgPayloadIF> k(a.clone());
  return a.equal(&b) == (x && y && *x == *y) && !a.equal(nullptr) && !a.equal(&e) && !e.equal(&a) && !a.equal(&i) &&
         k->type() == CSPayloadType::OutgoingData && static_cast<P*>(k.get())->content() == x;
}
