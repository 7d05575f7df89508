// a stand-in executor for the blocking timer; no library code here
#include <maf/messaging/SyncTimer.h>
#include <maf/utils/ExecutorIF.h>
struct ExMock : maf::util::ExecutorIF {
  ~ExMock() override;
  bool execute(CallbackType) noexcept override;
};
ExMock::~ExMock() {}
// a timer made without saying so runs once
void plain_timer(maf::messaging::SyncTimer *p) { new (p) maf::messaging::SyncTimer; }
ExMock *mk() { return new ExMock; }
