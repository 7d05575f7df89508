// instantiation of the real templates with an arbitrary (opaque) element type; no library code here
#include <maf/threading/Queue.h>
struct Opaque {
  Opaque(); Opaque(const Opaque &); Opaque(Opaque &&);
  Opaque &operator=(const Opaque &); Opaque &operator=(Opaque &&);
  ~Opaque(); int v; };
bool operator<(const Opaque &, const Opaque &);
template class maf::threading::ThreadSafeQueue<maf::stdwrap::Queue<Opaque>>;
template class maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque, std::less<Opaque>>>;
template bool maf::threading::ThreadSafeQueue<maf::stdwrap::Queue<Opaque>>::waitFor(Opaque &, const std::chrono::milliseconds &);
template bool maf::threading::ThreadSafeQueue<maf::stdwrap::Queue<Opaque>>::waitUntil(Opaque &, const std::chrono::steady_clock::time_point &);
template bool maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque, std::less<Opaque>>>::waitUntil(Opaque &, const std::chrono::system_clock::time_point &);
template bool maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque, std::less<Opaque>>>::waitFor(Opaque &, const std::chrono::milliseconds &);
void push_all(maf::threading::ThreadSafeQueue<maf::stdwrap::Queue<Opaque>> &q,
              maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<Opaque, std::less<Opaque>>> &p,
              const std::vector<Opaque> &v) {
  q.push(v);
  p.push(v);
}
