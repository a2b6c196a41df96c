prop='X03'
edits=[('src/common/runnable.cc','      if (is_stop && PendingTaskCount() == 0) {','      if (is_stop && PendingTaskCount() <= 1) {')]
needs='a priority worker set that is destroyed while one accepted task is still queued'
what='the worker exits and the accepted task is never run'
srcs=['src/common/runnable.cc','src/common/synchronization.cc']
protos=['common']
kit=['bthread','butil','bvar','common/helper.h']
demo='''
#include "common/runnable.h"
#include <cstdio>
#include <atomic>
using namespace dingodb;
std::atomic<int> ran{0};
struct T : TaskRunnable { int ms; explicit T(int m) : ms(m) {} std::string Type() override { return "t"; } void Run() override { usleep(ms * 1000); ++ran; } };
int main() {
  for (int n = 1; n <= 4; ++n) {
    ran = 0; int ok = 0;
    {
      auto ws = PriorWorkerSet::New("t" + std::to_string(n), 1, 0, true, false);
      if (!ws->Init()) return 2;
      for (int i = 0; i < n; ++i) ok += ws->Execute(std::make_shared<T>(80));
      std::thread d([&] { usleep(20000); ws->Destroy(); });
      d.join();
    }
    if (ran != ok) { printf("accepted %d ran %d\\n", ok, (int)ran); _exit(1); }
  }
  _exit(0);
}
'''
