// Replay support: runs scenarios against the real code in child processes, with a time limit, and (for two-thread
// scenarios) forces one preemption of thread A at its k-th synchronisation operation, where thread B then runs until
// it finishes or blocks.  Used only to look for a concrete failing run after an obligation has failed.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <thread>
#include <vector>

namespace dvr {
using Hook = void (*)();
inline thread_local int counter = -1;         // -1: not a controlled thread
inline int preempt_at = -1;
inline std::atomic<int> phase{0};             // 0 A runs, 1 B may run, 2 A may continue
inline std::atomic<bool> b_done{false}, a_done{false};
inline void point() {
  if (counter < 0) return;
  int c = counter++;
  if (c != preempt_at) return;
  phase = 1;
  for (int i = 0; i < 600 && !b_done; ++i) usleep(200);   // B finished, or it is blocked
  phase = 2;
}
struct Pass { int code; std::string text; };
// run f in a child: exit code, 1000+signal, or 2000 on timeout
inline Pass child(const std::function<int()> &f, int timeout_ms) {
  fflush(stdout); fflush(stderr);
  int fd[2];
  if (pipe(fd)) return {3000, ""};
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    dup2(fd[1], 2); dup2(fd[1], 1);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(timeout_ms / 1000 + 20);
    int r = f();
    fflush(stdout); fflush(stderr);
    _exit(r);
  }
  close(fd[1]);
  std::string text;
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
  int st = 0;
  bool done = false;
  std::thread rd([&] { char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) if (text.size() < 60000) text.append(b, n); });
  while (std::chrono::steady_clock::now() < end) {
    if (waitpid(p, &st, WNOHANG) == p) { done = true; break; }
    usleep(500);
  }
  if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); }
  rd.join();
  close(fd[0]);
  if (!done) return {2000, text};
  if (WIFSIGNALED(st)) return {1000 + WTERMSIG(st), text};
  return {WEXITSTATUS(st), text};
}
// A in one thread, B in another, preempting A at its k-th synchronisation operation.  Returns true if k was reached.
inline bool interleave(int k, const std::function<void()> &A, const std::function<void()> &B) {
  preempt_at = k;
  bool reached = false;
  std::thread ta([&] { counter = 0; A(); reached = counter > k; counter = -1; a_done = true; phase = 2; });
  std::thread tb([&] { for (int i = 0; i < 3000 && phase == 0; ++i) usleep(50); B(); b_done = true; });
  ta.join();
  tb.join();
  return reached;
}
inline int failures = 0;
inline void report(const char *scenario, const Pass &p) {
  ++failures;
  printf("FAILING-RUN %s: %s\n", scenario,
         p.code == 2000 ? "does not finish (blocked forever)" : p.code > 1000 && p.code < 2000 ? ("killed by signal " + std::to_string(p.code - 1000)).c_str()
                        : ("exit code " + std::to_string(p.code)).c_str());
  std::string t = p.text.substr(0, 3000);
  if (!t.empty()) printf("%s\n", t.c_str());
  fflush(stdout);
}
inline void scenario(const char *name, const std::function<int()> &f, int timeout_ms = 10000) {
  auto p = child(f, timeout_ms);
  if (p.code != 0) report(name, p);
}
// try every preemption point until A no longer reaches it
inline void two_threads(const char *name, const std::function<int(int)> &run, int maxk = 40, int timeout_ms = 4000) {
  for (int k = 0; k < maxk; ++k) {
    auto p = child([&] { return run(k); }, timeout_ms);
    if (p.code == 77) return;          // point not reached
    if (p.code != 0) { report((std::string(name) + " [preempt A at sync op " + std::to_string(k) + "]").c_str(), p); return; }
  }
}
#define SCHED_MAIN_RESULT() (printf("%d failing scenario(s)\n", dvr::failures), dvr::failures ? 1 : 0)
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "check failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
}  // namespace dvr

extern "C" {
#define SCHED_WRAP(ret, name, params, args, before, after)                                 \
  ret name params noexcept {                                                                       \
    using F = ret(*) params;                                                               \
    static F real = (F)dlsym(RTLD_NEXT, #name);                                            \
    before;                                                                                \
    ret r = real args;                                                                     \
    after;                                                                                 \
    return r;                                                                              \
  }
SCHED_WRAP(int, pthread_mutex_lock, (pthread_mutex_t * m), (m), dvr::point(), (void)0)
SCHED_WRAP(int, pthread_mutex_unlock, (pthread_mutex_t * m), (m), (void)0, dvr::point())
SCHED_WRAP(int, pthread_cond_signal, (pthread_cond_t * c), (c), dvr::point(), (void)0)
SCHED_WRAP(int, pthread_cond_broadcast, (pthread_cond_t * c), (c), dvr::point(), (void)0)
}
