// the pools, and a stand-in for what runs in them (declared only: it obeys a contract)
#include "maf/threading/threadpool/DynamicCountThreadPool.cpp"
#include "maf/threading/threadpool/PriorityThreadPool.cpp"
#include "maf/threading/threadpool/StableThreadPool.cpp"
#include "maf/threading/threadpool/ThreadPoolFactory.cpp"
struct RunMock : maf::threading::Runnable {
  ~RunMock() override;
  void run() override;
  void stop() override;
};
RunMock::~RunMock() {}
void *make_runnable() {
  static RunMock r;
  return &r;
}
