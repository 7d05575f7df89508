// Library model (trusted): std::packaged_task<void()> and std::async, reduced to what the standard promises.
// A task keeps the function it was given; running it calls the function once and then makes its future ready; a task
// destroyed without having run breaks its promise.  async(deferred) makes a future that calls the function when it is
// waited for, async(async) runs it on a thread of its own.  Included before the verified source file, which is otherwise
// extracted as it is.
#pragma once
#include <functional>
#include <future>
#include <memory>
void dv_task_done(void *task, bool threw) noexcept;
void dv_task_gone(void *task) noexcept;
std::future<void> dv_task_future(void *task);
std::future<void> dv_future_of(std::launch policy, std::function<void()> *f);
namespace std {
template <class Sig>
class dv_packaged_task;
template <>
class dv_packaged_task<void()> {
  function<void()> f_;

 public:
  template <class F>
  explicit dv_packaged_task(F &&f) : f_(std::forward<F>(f)) {}
  future<void> get_future() { return dv_task_future(this); }
  void operator()() {
    try {
      f_();
    } catch (...) {
      dv_task_done(this, true);
      return;
    }
    dv_task_done(this, false);
  }
  ~dv_packaged_task() { dv_task_gone(this); }
};
template <class F>
future<void> dv_async(launch policy, F &&f) {
  auto p = make_shared<decay_t<F>>(std::forward<F>(f));
  function<void()> g = [p] { (*p)(); };
  return dv_future_of(policy, &g);
}
}  // namespace std
#define packaged_task dv_packaged_task
#define async(...) dv_async(__VA_ARGS__)
