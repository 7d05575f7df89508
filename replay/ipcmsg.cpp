// real-code runs for messages between processes and threads
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/itc/ParamTrait.h>
#include <maf/messaging/client-server/ipc/LocalIPCMessage.h>
#include "dvrun.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc::local;
using Content = std::vector<std::string>;
static std::string text(int n) { std::string s; while (n-- > 0) s += char(rand()); return s; }
static int rt(unsigned seed) {
  srand(seed);
  static const OpCode codes[] = {OpCode::StatusRegister, OpCode::Unregister, OpCode::StatusGet, OpCode::Request, OpCode::Invalid, OpCode::ServiceStatusUpdate};
  OpCode c = codes[rand() % 6];
  auto s = text(rand() % 5), o = text(rand() % 300);
  RequestID r = rand() ^ (RequestID(rand()) << 33);
  Address a(text(rand() % 4), rand());
  int kind = rand() % 4;
  CSPayloadIFPtr p;
  std::shared_ptr<Content> x;
  auto d = text(rand() % 40);
  auto ec = CSErrorCode(rand() % 10);
  if (kind == 1) p = std::make_shared<CSError>(d, ec);
  if (kind > 1) { if (kind == 2) { x = std::make_shared<Content>(); for (int i = rand() % 4; i > 0; --i) x->push_back(text(rand() % 9)); } p = ParamTrait::translate<Content>(x); }
  LocalIPCMessage m{s, o, c, r, p, a};
  auto b = m.toBytes();
  auto copy = b;
  LocalIPCMessage n;
  CHECK(n.fromBytes(std::move(b)));
  CHECK(n.serviceID() == s); CHECK(n.operationID() == o); CHECK(n.operationCode() == c); CHECK(n.requestID() == r); CHECK(n.sourceAddress() == a);
  CHECK(n.payload());
  if (kind == 1) {
    CHECK(n.payload()->type() == CSPayloadType::Error);
    auto e = static_cast<CSError*>(n.payload().get());
    CHECK(e->description() == d); CHECK(e->code() == ec);
    TranslationStatus st = TranslationStatus::Success;
    CHECK(!ParamTrait::translate<Content>(n.payload(), &st)); CHECK(st != TranslationStatus::Success);
  } else if (kind > 1) {
    for (int i = 0; i < 2; ++i) {
      TranslationStatus st = TranslationStatus::NoSource;
      auto y = ParamTrait::translate<Content>(n.payload(), &st);
      CHECK(st == TranslationStatus::Success); CHECK(!x == !y); CHECK(!x || *x == *y);
    }
    TranslationStatus st = TranslationStatus::NoSource;
    CHECK(ParamTrait::translate<Content>(p, &st) == x); CHECK(st == TranslationStatus::Success);
  }
  // truncated and corrupted bytes
  auto cut = copy.substr(0, rand() % (copy.size() + 1));
  bool full = cut.size() == copy.size();
  LocalIPCMessage k;
  bool ok = k.fromBytes(std::move(cut));
  if (ok) { CHECK(k.payload()); if (k.payload()->type() == CSPayloadType::IncomingData && kind > 1 && !full) { TranslationStatus st = TranslationStatus::Success; auto y = ParamTrait::translate<Content>(k.payload(), &st); CHECK(st != TranslationStatus::Success); } }
  CHECK(ok || !full);
  if (!ok && kind == 1) CHECK(!full);
  return 0;
}
static int short_header(unsigned seed) {
  srand(seed);
  LocalIPCMessage m{text(3), text(5), OpCode::Request, 7, std::make_shared<CSError>(text(9), CSErrorCode::Unknown), Address{}};
  auto b = m.toBytes();
  for (size_t n = 0; n < b.size(); ++n) { LocalIPCMessage k; CHECK(!k.fromBytes(b.substr(0, n))); }
  return 0;
}
template <class P>
static int payloads(P mk) {
  auto x = std::make_shared<Content>(Content{"a", "b"}), y = std::make_shared<Content>(Content{"a", "b"}), z = std::make_shared<Content>(Content{"a"});
  auto a = mk(x), b = mk(y), c = mk(z), n = mk(std::shared_ptr<Content>{});
  CSError e("a", CSErrorCode::InvalidParam), f("a", CSErrorCode::InvalidParam), g("a", CSErrorCode::RequestTimeout), h("b", CSErrorCode::InvalidParam);
  IncomingPayload i(std::make_shared<maf::srz::IByteStream>(std::string("x")));
  CHECK(a->equal(b.get())); CHECK(!a->equal(c.get())); CHECK(!a->equal(nullptr)); CHECK(!a->equal(&e)); CHECK(!a->equal(&i)); CHECK(!e.equal(a.get())); CHECK(!i.equal(a.get()));
  if (n) { CHECK(!a->equal(n.get())); CHECK(!n->equal(a.get())); }
  CHECK(e.equal(&f)); CHECK(!e.equal(&g)); CHECK(!e.equal(&h)); CHECK(!e.equal(&i)); CHECK(!i.equal(&e)); CHECK(!e.equal(nullptr));
  std::unique_ptr<CSMsgPayloadIF> k(a->clone()), ek(e.clone());
  CHECK(k->type() == a->type()); CHECK(k->equal(b.get())); CHECK(ek->equal(&e)); CHECK(ek->type() == CSPayloadType::Error);
  CSError s("1", CSErrorCode::Unknown);
  { CSError q(e), r("z"); r = q; q.setDescription("y"); CHECK(r.equal(&e)); CHECK(q.description() == "y"); CHECK(e.description() == "a"); }
  s.setDescription("2"); CHECK(s.description() == "2"); CHECK(s.code() == CSErrorCode::Unknown);
  s.setCode(CSErrorCode::InvalidParam); CHECK(s.description() == "2"); CHECK(s.code() == CSErrorCode::InvalidParam);
  return 0;
}
static int fields() {
  auto p = std::make_shared<CSError>("d");
  auto m = createCSMessage<CSMessage>("s", "o", OpCode::Abort, RequestID(9), p, Address{"n", 3});
  auto good = [&](const CSMessage& q) { return q.serviceID() == "s" && q.operationID() == "o" && q.operationCode() == OpCode::Abort && q.requestID() == 9 && q.payload() == p && q.sourceAddress() == Address("n", 3); };
  CHECK(good(*m));
  CSMessage a(*m), b(std::move(a)), c, d, e;
  c = b; d = std::move(b);
  CHECK(good(c)); CHECK(good(d)); CHECK(good(*m));
  e.setServiceID("s"); e.setOperationID("o"); e.setOperationCode(OpCode::Abort); e.setRequestID(9); e.setPayload(p); e.setSourceAddress(Address{"n", 3});
  CHECK(good(e));
  using T = maf::messaging::itc::ParamTrait;
  for (auto x : {std::make_shared<Content>(Content{"q"}), std::shared_ptr<Content>{}}) {
    TranslationStatus st;
    auto y = T::translate<Content>(T::translate<Content>(x), &st);
    CHECK(y == x); CHECK(st == TranslationStatus::Success);
  }
  TranslationStatus st = TranslationStatus::Success;
  CHECK(!ParamTrait::translate<Content>(CSPayloadIFPtr{}, &st)); CHECK(st == TranslationStatus::NoSource);
  return 0;
}
int main() {
  for (unsigned i = 0; i < 60; ++i) dvr::scenario("message to another process and back", [i] { for (unsigned j = 0; j < 40; ++j) if (int r = rt(i * 40 + j)) return r; return 0; });
  dvr::scenario("cut off messages", [] { for (unsigned j = 0; j < 5; ++j) if (int r = short_header(j)) return r; return 0; });
  dvr::scenario("payloads", [] { return payloads([](auto x) { return ParamTrait::translate<Content>(x); }); });
  dvr::scenario("payloads between threads", [] { return payloads([](auto x) { return maf::messaging::itc::ParamTrait::translate<Content>(x); }); });
  dvr::scenario("message fields", fields);
  return SCHED_MAIN_RESULT();
}
